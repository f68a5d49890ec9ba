// status: any failure
#include <stdio.h>
int f(int a, int a) { return a; }
int main() { printf("start\n"); printf("%d\n", f(1, 2)); return 0; }

// status: any failure
#include <stdio.h>
int twice(int a) { return a; }
int twice(int a) { return a + 1; }
int main() { printf("%d\n", twice(1)); return 0; }

// status: any failure
#include <stdio.h>
int f(int x) { printf("%d\n", x); fflush(stdout); return y; }
int main() { f(2); return 0; }

// status: any failure
#include <stdio.h>
int main() { int a = 1, b = 2, a = 3; printf("%d\n", a + b); return 0; }

// status: any failure
#include <stdio.h>
int main() { { int inner = 4; printf("%d\n", inner); } printf("%d\n", inner); return 0; }

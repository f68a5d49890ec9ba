// status: any failure
#include <stdio.h>
int main() { int b; b = 3; printf("%d\n", b); b.a = 3; printf("%d\n", b); return 0; }

// status: any failure
#include <stdio.h>
int main() { int k; k = 1; printf("%d\n", k); k = nowhere; printf("%d\n", k); return 0; }

// status: any failure
#include <stdio.h>
int main() { printf("%d\n", 1); enum nothere v; v = 1; printf("%d\n", v); return 0; }

// status: any failure
#include <stdio.h>
int f(void) { return local; }
int main() { int local = 4; printf("%d\n", local); printf("%d\n", f()); return 0; }

#include <stdio.h>
#include <stdlib.h>
int f(int x) { exit(x); return 1; }
int main() { puts("a"); fflush(stdout); f(42); return 2; }

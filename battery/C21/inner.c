#include <stdio.h>
int f(int x) { printf("%d\n", x); if (x > 2) return 9; f(x + 1); return 21 + x; }
int main() { f(0); return f(1); }

#include <stdio.h>
int f(int k) { static struct s { int a; } x; struct s y; y.a = k; x.a = x.a + y.a; return x.a; }
int g(int k) { static enum { P, Q } e; e = Q; return e + k; }
int main() { printf("%d\n", f(2)); printf("%d\n", f(3)); printf("%d\n", g(2)); printf("%d\n", g(3)); return 0; }

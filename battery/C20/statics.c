#include <stdio.h>
typedef struct t { int k; } T;
static struct u { int a; } us;
static T tarr[3];
static int x = 5, *p = &x, arr[4], y;
int inc(int k) { static int n = 3; static int a[3], *q; static T t; static struct u w; n = n + k; a[n % 3]++; q = &n; t.k += k; w.a = w.a + t.k; printf("%d %d %d %d %d %d %d\n", n, a[0], a[1], a[2], *q, t.k, w.a); return n; }
int other(int k) { int n; static int m; static char c = 'a'; n = 0; n = n + k; m = m + n; c++; if (k > 0) { static int m = 100; m++; printf("in %d ", m); } printf("%d %d %c\n", n, m, c); return m; }
int rec(int d) { static int depth; int mine; depth++; mine = depth; if (d > 0) rec(d - 1); printf("%d/%d ", mine, depth); return depth; }
int *addr() { static int z = 7; return &z; }
int loop() { int i; int s; s = 0; for (i = 0; i < 4; i++) { static int t = 10; int u; u = 0; t++; u++; s = s + t * u; } return s; }
int main() { int i; int *z;  for (i = 1; i < 5; i++) { inc(i); other(i - 2); } rec(3); printf("\n"); z = addr(); *z = *z + 1; z = addr(); printf("%d\n", *z); i = loop(); i = loop(); printf("%d %d %d\n", i, 1, *p); tarr[1].k = 3; us.a = tarr[1].k; printf("%d %d %d\n", us.a, arr[2], y); return 0; }

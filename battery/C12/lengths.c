// arrays whose length is an object's value; types that are declared inside a structure
int printf(const char *f, ...);
struct out { int a; struct inner { char c; long l; } in; union u2 { int i; char c; } u; enum k { K1 = 4, K2 } e; char end; };
struct out g;
int sum(int n) { int a[n]; int i, s = 0; for (i = 0; i < n; i++) a[i] = i * i; for (i = 0; i < n; i++) s += a[i]; return s; }
int main()
{
  int n = 3; char c = 5; unsigned long z;
  int a[n]; short b[c]; long d[n + 1];
  struct inner x; union u2 y;
  z = sizeof a; printf("%lu ", z); z = sizeof b; printf("%lu ", z); z = sizeof d; printf("%lu\n", z);
  a[2] = 9; b[4] = 8; d[3] = 7; printf("%d %d %ld\n", a[2], b[4], d[3]);
  printf("%d %d\n", sum(3), sum(10));
  z = sizeof(struct out); printf("%lu ", z); z = sizeof(struct inner); printf("%lu ", z); z = sizeof(union u2); printf("%lu\n", z);
  g.in.l = 5; g.in.c = 'x'; g.u.i = 7; g.e = K2; g.end = 'y'; x.c = 66; x.l = -4; y.i = 65; printf("%ld %c %ld %c %d %d %c %c\n", g.in.l, g.in.c, x.l, x.c, g.u.i, g.e, g.end, y.c);
  return 0;
}

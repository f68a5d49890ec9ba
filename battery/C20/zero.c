#include <stdio.h>
typedef struct s { int a; char b[5]; double d; struct in { int x; long y; } i; union u { char c; long l; } u; int *p; unsigned f : 3; } S;
int waste(int k)
{
	int i; long a[40]; S s;
	for (i = 0; i < 40; i++) a[i] = 6510615555426900570 + k;
	s.a = 77; s.d = 1.5; s.i.y = -1; s.u.l = -1; s.p = &i; s.f = 5;
	for (i = 0; i < 5; i++) s.b[i] = 'x';
	return a[3] > 0;
}
int g; S gs; int ga[30]; char *gp; double gd; S gsa[4]; unsigned long gl; char gc; static short gss;
int all(S *s) { int i; int n; n = 0; for (i = 0; i < 5; i++) if (s->b[i]) n++; if (s->a) n++; if (s->i.x) n++; if (s->i.y) n++; if (s->u.l) n++; if (s->p) n++; if (s->f) n++; return n; }
int f(int k)
{
	static int n; static S s; static int a[20]; static char *p; static S sa[3]; static long double ld; static float fl;
	int i; int sum;
	sum = 0;
	for (i = 0; i < 20; i++) sum = sum + a[i];
	a[k] = k;
	n++;
	printf("%d %d %d %d %d %Lf %f\n", n, all(&s), sum, p == 0, all(&sa[1]), ld, fl);
	sa[1].i.x = sa[1].i.x + k;
	s.u.l = k;
	return sa[1].i.x;
}
int h(int k) { static int m; static int b[10]; m = m + b[k] + 1; b[k]++; return m; }
int main()
{
	int i; int n;
	for (i = 0; i < 30; i++) waste(i);
	n = 0;
	for (i = 0; i < 30; i++) if (ga[i]) n++;
	for (i = 0; i < 4; i++) n = n + all(&gsa[i]);
	printf("%d %d %d %d %f %d %lu %d %d\n", n, g, all(&gs), gp == 0, gd, all(&gsa[2]), gl, gc, gss);
	for (i = 0; i < 5; i++) { waste(i); n = f(i); }
	printf("%d\n", n);
	for (i = 0; i < 60; i++) { n = h(i % 10); waste(i); }
	printf("%d\n", n);
	return 0;
}

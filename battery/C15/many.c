#include <stdio.h>
int f(int a, long b, char c, short d, unsigned char e, double g, int h, int i, int j, long k, float l, int m, char *n, int o, int p, int q, int r, int s, int t, unsigned int u)
{
	printf("%d %ld %d %d %d %f %d %d %d %ld %f %d %s %d %d %d %d %d %d %u\n", a, b, c, d, e, g, h, i, j, k, l, m, n, o, p, q, r, s, t, u);
	return a + b + c + d + e + h + i + j + k + m + o + p + q + r + s + t + u;
}
int (*p)(int a, long b, char c, short d, unsigned char e, double g, int h, int i, int j, long k, float l, int m, char *n, int o, int p, int q, int r, int s, int t, unsigned int u);
int rec(int n) { int (*g)(int); if (n < 2) return 1; g = &rec; return n * g(n - 1); }
int main()
{
	double d; float l; int k; int (*g)(int);
	d = 0.5; l = 0.25;
	p = &f;
	k = p(1, -2, 3, -4, 5, d, -7, 8, -9, 10, l, -12, "n", 14, -15, 16, -17, 18, -19, 20);
	printf("%d\n", k);
	g = &rec;
	k = g(6);
	printf("%d\n", k);
	return 0;
}

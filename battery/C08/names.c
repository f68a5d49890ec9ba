#include <stdio.h>
int x = 5;
int y = 7;
int z;
int seen(void) { return x * 100 + y; }
int f(int x)
{
	x++;
	{
		int x = 9;
		int y;
		y = x;
		x = x + y;
	}
	return x * 10 + y;
}
int g(void)
{
	int y = 20;
	{
		int z;
		z = y;
		{
			int y;
			y = 3;
			z += y;
			y = 1000;
		}
		return seen() + z + y;
	}
}
/* the caller's names aren't visible */
int callee(void) { return x; }
int caller(void)
{
	int x = 50;
	int k = callee();
	return k * 100 + x;
}
int rec(int n)
{
	int k = n;
	int s;
	if (n == 0)
		return 0;
	s = rec(n - 1);
	return s * 10 + k;
}
int loops(void)
{
	int r = 0;
	for (int x = 0; x < 3; x++) {
		int z = x;
		r = r * 10 + z;
		for (int x = 7; x < 9; x++)
			r += x;
	}
	while (r > 100) {
		int x = 60;
		r -= x;
	}
	if (r) {
		int y = 1;
		r += y;
	} else {
		int y = 2;
		r += y;
	}
	return r * 100 + x * 10 + y;
}
int same(int same) { return same + 1; }
int later(int k);
int uses(int k) { return later(k) + 1; }
int later(int k) { return k * 2; }
int later(int k);
int a, *p, **pp, arr[3], *ap[2];
int main()
{
	int main2 = 3, n[2], *q = &main2, m = main2 + 1;
	printf("%d %d\n", f(2), x);
	printf("%d %d %d\n", g(), y, z);
	printf("%d\n", caller());
	printf("%d\n", rec(5));
	printf("%d\n", loops());
	printf("%d\n", same(4));
	printf("%d\n", uses(21));
	a = 4; p = &a; pp = &p; arr[2] = 6; ap[1] = &arr[2];
	printf("%d %d %d %d\n", *p, **pp, arr[2], *ap[1]);
	n[1] = m;
	printf("%d %d %d\n", *q, n[1], m);
	{
		int a = 40;
		*p = 41;
		printf("%d %d\n", a, *p);
		a = 1;
	}
	printf("%d\n", a);
	return 0;
}

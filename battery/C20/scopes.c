#include <stdio.h>
int x = 1;
int seen;
int note(int k) { seen = seen * 10 + k; return k; }
int twice(int k)
{
	static int x = 10;
	if (k) { static int x = 100; x = x + k; printf("%d ", x); }
	while (k > 0) { static int y = 1000; y = y + k; printf("%d ", y); k--; }
	x++;
	return x;
}
int other() { static int x = 50; x = x + 5; return x; }
int *cell(int k) { static int a[4]; static int *p = 0; if (p == 0) p = &a[1]; *p = *p + k; return p; }
int fact(int n) { static int calls; int mine; calls++; mine = n; if (n > 1) mine = n * fact(n - 1); if (n == 5) printf("calls %d ", calls); return mine; }
char *name(int k) { static char buf[8]; buf[k] = 'a' + k; return buf; }
static int hidden(int k) { static int t = 3; int u = 3; t = t + k; u = u + k; return t * 100 + u; }
int later(int k) { if (k == 2) { static int z = 8; z++; return z; } return 0; }
int main()
{
	int i; int k; int *p; char *s;
	for (i = 0; i < 4; i++) { k = twice(i); printf("%d %d\n", k, other()); }
	printf("%d\n", x);
	for (i = 0; i < 3; i++) { p = cell(i + 5); printf("%d ", *p); *p = *p * 2; }
	k = fact(5); printf("%d\n", k); k = fact(5); printf("%d\n", k);
	for (i = 0; i < 5; i++) s = name(i);
	printf("%s\n", s);
	for (i = 0; i < 4; i++) printf("%d ", hidden(i));
	for (i = 0; i < 6; i++) printf("%d ", later(i % 3));
	printf("%d\n", seen);
	return 0;
}

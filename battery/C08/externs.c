#include <stdio.h>
#include <stdlib.h>
#include <string.h>
extern char **environ;
extern int f(int k);
int h(int k);
int g(int k) { return f(k) + h(k); }
int f(int k) { return k * 2; }
int h(int k) { return k * 3; }
int (*fp)(int) = &f;
extern int abs(int v);
typedef int (*FN)(int, int);
typedef struct { int x; int y; } P;
typedef P *PP;
typedef int ROW[3];
typedef unsigned char byte, *bytes;
int add(int a, int b) { return a + b; }
int sub(int a, int b) { return a - b; }
int apply(FN f, int a, int b) { return f(a, b); }
void setp(P *p, int x) { p->x = x; p->y = x + 1; }
int useabs(int v) { extern int abs(int v); return abs(v) + 1; }
int main()
{
	P p; PP q; FN f = &add; ROW r; byte b; bytes bs;
	q = &p;
	setp(&p, 4);
	printf("%d %d\n", p.x, q->y);
	printf("%d %d\n", apply(&add, 3, 4), apply(&sub, 3, 4));
	printf("%d\n", f(1, 2));
	printf("%d\n", g(10));
	printf("%d\n", fp(21));
	printf("%d %d\n", abs(-4), useabs(-6));
	r[2] = 5;
	b = 300; bs = &b;
	printf("%d %d %d\n", (int)sizeof(r), r[2], *bs);
	printf("%d\n", environ != 0);
	printf("%d\n", (int)strlen("hello"));
	{
		typedef char T2;
		T2 c = 65;
		int add = 3;
		printf("%d %d\n", (int)sizeof(c), add);
	}
	printf("%d\n", add(1, 1));
	return 0;
}

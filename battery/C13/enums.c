#include <stdio.h>
enum e1 { A, B, C = 10, D, E = -5, F, G = F + 3, H = C };
typedef enum { X = 1, Y } T;
typedef enum e1 E1;
enum { BIG = 2147483646, BIGGER, SMALL = -2147483647 - 1, SMALL1, CH = 'a', CH1, NEG = -(3), NOT = ~0, SH = 1 << 5, SH1, SZ = sizeof(int), SZ1, CND = B ? 7 : 9, LOG = A || B, MIX = (C * D) % 7 - 20 };
enum trail { TA = 3, TB, };
struct holder { enum inside { IA = 4, IB } k; int v; };
enum e1 gl;
enum e1 arr[3];
T f(T x) { if (x == X) return Y; return X; }
int g(enum e1 v) { return v + 1; }
int table[C];
int fresh(int n)
{
	enum { P = 100, Q };
	enum loc { R = Q + 5, S } s;
	s = S;
	return P + Q + s + n;
}
int main()
{
	enum e1 v;
	E1 w;
	T t;
	struct holder h;
	int k;
	v = D;
	w = E;
	printf("%d %d %d %d %d %d %d %d\n", A, B, C, D, E, F, G, H);
	printf("%d %d %d %d %d %d %d %d %d %d\n", BIG, BIGGER, SMALL, SMALL1, CH, CH1, NEG, NOT, SH, SH1);
	printf("%d %d %d %d %d %d %d\n", SZ, SZ1, CND, LOG, MIX, TA, TB);
	k = v + Y;
	printf("%d %d %d\n", k, v, w);
	printf("%d\n", f(X) * 10 + f(Y));
	{
		enum { A = 77, Z };
		enum e1 { M = 50, B };
		enum e1 in;
		in = B;
		printf("%d %d %d %d %d\n", A, Z, M, B, in);
	}
	printf("%d %d\n", A, B);
	for (k = 0; k < 3; k++)
		printf("%d ", fresh(k));
	printf("\n");
	h.k = IB; h.v = IA;
	arr[2] = G; gl = H;
	printf("%d %d %d %d\n", h.k, h.v, arr[2], gl);
	printf("%d %d %d %d\n", g(C), g(E), (int)sizeof(table), (int)sizeof(enum e1));
	for (v = B; v < D; v++)
		if (v == C)
			printf("found\n");
	t = X;
	printf("%d %d\n", t == X, t != Y);
	return B + D;
}

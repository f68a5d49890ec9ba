int printf(const char *f, ...);
int iff(int n) { if (n) return 1; return 2; }
int ifelse(int n) { if (n > 3) { return 1; } else { return 2; } }
int chain(int n)
{
	if (n == 0)
		return 10;
	else if (n == 1)
		return 20;
	else if (n < 0)
		return 30;
	else
		return 40;
	return 99;
}
int wloop(int n) { int s; s = 0; while (n) { s = s + n; n = n - 1; } return s; }
int wsingle(int n) { int s; s = 0; while (n--) s += 2; return s; }
int wbreak(int n) { int i; i = 0; while (1) { if (i == n) break; i++; } return i; }
int wret(int n) { while (1) { n++; if (n > 10) return n; } return 0; }
int floop(int n) { int i; int s; s = 0; for (i = 0; i < n; i++) s += i; return s; }
int fdecl(int n) { int s; s = 0; for (int i = 0; i < n; i++) { int k; k = i * 2; s += k; } return s; }
int fbreak(int n) { int i; for (i = 0; i < 100; i++) { if (i > n) break; } return i; }
int fnocond(int n) { int i; for (i = 0; ; i++) { if (i * i > n) break; } return i; }
int fret(int n) { int i; int j; for (i = 0; i < 10; i++) for (j = 0; j < 10; j++) if (i * j == n) return i * 100 + j; return 0 - 1; }
int nested(int n)
{
	int i;
	int j;
	int c;
	c = 0;
	for (i = 0; i < n; i++) {
		j = 0;
		while (1) {
			if (j == i)
				break;
			j++;
			c++;
		}
		c += 100;
	}
	return c;
}
int inblocks(int n) { { { if (n) { { return 5; } } } } return 6; }
int fact(int n) { if (n < 2) return 1; return n * fact(n - 1); }
int fib(int n) { if (n < 2) { return n; } return fib(n - 1) + fib(n - 2); }
int gcount;
void noval(int n) { while (n > 0) { gcount++; if (gcount == 7) return; n--; } gcount += 1000; }
int condneg(int n) { if (0 - 1) n++; if (n - n) n += 10; if (!n) n += 100; return n; }
int loopcond(int n) { int c; c = 0; while (n - 5) { n++; c++; } return c; }
int effects(int n)
{
	int a;
	int b;
	a = 0;
	b = 0;
	if (a++) b = 1; else b = 2;
	while (a++ < n) b += 10;
	for (a = 0; a++ < n; b += 100) b += 1000;
	return b * 100 + a;
}
int empty(int n) { int i; for (i = 0; i < n; i++) ; while (i-- > 3) ; if (n) ; return i; }
int elsebreak(int n) { int i; for (i = 0; i < 50; i++) { if (i < n) { i = i; } else break; } return i; }
int twobreak(int n) { int i; int j; int s; s = 0; for (i = 0; i < n; i++) { for (j = 0; j < n; j++) { if (j == 2) break; s++; } if (i == 3) break; } return s; }
int main()
{
	int i;
	for (i = -3; i < 8; i++) {
		printf("%d: %d %d %d\n", i, iff(i), ifelse(i), chain(i));
		printf("%d %d %d\n", condneg(i), inblocks(i), floop(i));
	}
	for (i = 0; i < 8; i++) {
		printf("%d: %d %d %d %d\n", i, wloop(i), wsingle(i), wbreak(i), wret(i));
		printf("%d %d %d %d\n", fdecl(i), fbreak(i), fnocond(i * 7), fret(i * 3));
		printf("%d %d %d %d\n", nested(i), fact(i), fib(i), effects(i));
		printf("%d %d %d\n", empty(i), elsebreak(i), twobreak(i));
	}
	for (i = 0; i < 5; i++)
		printf("%d\n", loopcond(i));
	gcount = 0;
	noval(3);
	printf("%d\n", gcount);
	noval(5);
	printf("%d\n", gcount);
	noval(2);
	printf("%d\n", gcount);
	return 42;
}

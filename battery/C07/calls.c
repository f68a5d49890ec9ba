int printf(const char *f, ...);
char id_c(char x) { return x; }
long wide_c(char x) { long r; r = x; return r; }
char narrow_c(long x) { return x; }
unsigned char id_uc(unsigned char x) { return x; }
long wide_uc(unsigned char x) { long r; r = x; return r; }
unsigned char narrow_uc(long x) { return x; }
short id_s(short x) { return x; }
long wide_s(short x) { long r; r = x; return r; }
short narrow_s(long x) { return x; }
unsigned short id_us(unsigned short x) { return x; }
long wide_us(unsigned short x) { long r; r = x; return r; }
unsigned short narrow_us(long x) { return x; }
int id_i(int x) { return x; }
long wide_i(int x) { long r; r = x; return r; }
int narrow_i(long x) { return x; }
unsigned int id_ui(unsigned int x) { return x; }
long wide_ui(unsigned int x) { long r; r = x; return r; }
unsigned int narrow_ui(long x) { return x; }
long id_l(long x) { return x; }
long wide_l(long x) { long r; r = x; return r; }
long narrow_l(long x) { return x; }
unsigned long id_ul(unsigned long x) { return x; }
long wide_ul(unsigned long x) { long r; r = x; return r; }
unsigned long narrow_ul(long x) { return x; }
float id_f(float x) { return x; }
double id_d(double x) { return x; }
int d2i(double x) { return x; }
double i2d(int x) { return x; }
float l2f(long x) { return x; }
int glob;
int next(int k) { glob = glob + k; return k; }
int three(int a, int b, int c) { return a * 10000 + b * 100 + c; }
int sub(int a, int b) { return a - b; }
int swap(int a, int b) { return sub(b, a); }
int fact(int n) { if (n < 2) return 1; return n * fact(n - 1); }
int ack(int m, int n) { if (m == 0) return n + 1; if (n == 0) return ack(m - 1, 1); return ack(m - 1, ack(m, n - 1)); }
int shadow(int glob) { glob = glob + 1; { int glob; glob = 5; } return glob; }
void nothing(int k) { glob = k; }
void early(int k) { if (k > 3) { while (1) { { return; } } } glob = 0 - k; }
int deep(int k) { int i; for (i = 0; i < 9; i++) { int j; j = 0; while (1) { int q; q = j; j++; if (q * i == k) { { int z; z = q * 100 + i; return z; } } if (j > 9) break; } } return 0 - 1; }
int assigns(int a) { a = a + 1; a++; return a; }
int store(int *p, int v) { int old; old = *p; *p = v; return old; }
char *skip(char *s, int n) { return s + n; }
int many(char a, short b, int c, long d, unsigned char e, unsigned short f, unsigned int g, unsigned long h, float i, double j)
{ printf("%d %d %d %ld %d %d %u %lu %f %f\n", a, b, c, d, e, f, g, h, i, j); return 0; }
struct P { int x; int y; };
int area(struct P *p) { p->x = p->x + 1; return p->x * p->y; }
enum E { A, B = 7, C };
int en(enum E e) { return e; }
typedef short num;
num tn(num x) { return x; }
int nested(int a) { int b; b = a; if (a > 0) nested(a - 1); return a * 100 + b; }
int odd(int n);
int even(int n) { if (n == 0) return 1; return odd(n - 1); }
int odd(int n) { if (n == 0) return 0; return even(n - 1); }
int main()
{
	long v; int k; int a; struct P p; char *s;
	for (k = 0; k < 8; k++) {
		if (k == 0) v = 0; if (k == 1) v = 127; if (k == 2) v = 128; if (k == 3) v = 0 - 1; if (k == 4) v = 65535 + 3; if (k == 5) v = 4294967295 + 7; if (k == 6) v = 0 - 32769; if (k == 7) v = 1234567890123;

		printf("%ld %ld %ld\n", wide_c(v), wide_c(id_c(v)), wide_l(narrow_c(v)));
		printf("%ld %ld %ld\n", wide_uc(v), wide_uc(id_uc(v)), wide_l(narrow_uc(v)));
		printf("%ld %ld %ld\n", wide_s(v), wide_s(id_s(v)), wide_l(narrow_s(v)));
		printf("%ld %ld %ld\n", wide_us(v), wide_us(id_us(v)), wide_l(narrow_us(v)));
		printf("%ld %ld %ld\n", wide_i(v), wide_i(id_i(v)), wide_l(narrow_i(v)));
		printf("%ld %ld %ld\n", wide_ui(v), wide_ui(id_ui(v)), wide_l(narrow_ui(v)));
		printf("%ld %ld %ld\n", wide_l(v), wide_l(id_l(v)), wide_l(narrow_l(v)));
		printf("%ld %ld %ld\n", wide_ul(v), wide_ul(id_ul(v)), wide_l(narrow_ul(v)));
	}
	printf("%f %f %d %f %f\n", id_f(1.5), id_d(2.25), d2i(3.75), i2d(7), l2f(123456789));
	glob = 0; k = three(next(1), next(2), next(3)); printf("%d %d\n", k, glob);
	glob = 0; k = three(next(1), three(next(2), next(3), next(4)) / 10000, next(5)); printf("%d %d\n", k, glob);
	printf("%d %d %d\n", sub(9, 4), swap(9, 4), sub(sub(20, 5), sub(3, 1)));
	printf("%d %d\n", fact(10), ack(2, 3));
	glob = 77; k = shadow(3); printf("%d %d\n", k, glob);
	nothing(12); printf("%d\n", glob); early(2); printf("%d\n", glob); early(5); printf("%d\n", glob);
	for (k = 0; k < 20; k += 3) printf("%d\n", deep(k));
	k = 5; a = assigns(k); printf("%d %d\n", k, a);
	a = store(&k, 9); printf("%d %d\n", k, a);
	s = skip("hello", 2); printf("%s\n", s);
	many(300, 70000, 5, 6, 257, 65537, 9, 10, 1.5, 2.5);
	p.x = 3; p.y = 4; k = area(&p); printf("%d %d\n", k, p.x);
	printf("%d %d\n", en(B), en(C)); printf("%d\n", tn(65536 + 5));
	printf("%d %d %d\n", nested(4), even(10), odd(10));
	return 0;
}

#include <stdio.h>
typedef short num;
typedef unsigned char byte;
enum e { A, B = 70000 };
struct s { int k; char c; };
typedef struct s S;
typedef S *SP;
int log;
char t1(char x) { return x; }
unsigned char t2(unsigned char x) { return x; }
short t3(short x) { return x; }
unsigned short t4(unsigned short x) { return x; }
int t5(int x) { return x; }
unsigned int t6(unsigned int x) { return x; }
long t7(long x) { return x; }
unsigned long t8(unsigned long x) { return x; }
long long t9(long long x) { return x; }
unsigned long long t10(unsigned long long x) { return x; }
float t11(float x) { return x; }
double t12(double x) { return x; }
long double t13(long double x) { return x; }
char *t14(char *x) { return x; }
num t15(num x) { return x; }
byte t16(byte x) { return x; }
enum e t17(enum e x) { return x; }
SP t18(SP x) { return x; }
S *t19(S *x, int k) { x->k = x->k + k; return x; }
void t20(long x) { log = x; }
int t21(void) { return -7; }
int t22() { return -8; }
long n1(char x) { return x; }
long n2(unsigned char x) { return x; }
long n3(short x) { return x; }
long n4(unsigned short x) { return x; }
long n5(int x) { return x; }
long n6(unsigned int x) { return x; }
char n7(long x) { return x; }
unsigned char n8(long x) { return x; }
short n9(long x) { return x; }
unsigned short n10(long x) { return x; }
int n11(long x) { return x; }
unsigned int n12(long x) { return x; }
double n13(long x) { return x; }
float n14(long x) { return x; }
long n15(double x) { return x; }
long n16(float x) { return x; }
num n17(long x) { return x; }
byte n18(long x) { return x; }
int mix(char a, double b, short c, float d, long e, char *f, unsigned char g, int *h)
{
	printf("%d %f %d %f %ld %s %d %d\n", a, b, c, d, e, f, g, *h);
	*h = *h + 1;
	return a + c + e + g;
}

char (*p1)(char);
unsigned char (*p2)(unsigned char);
short (*p3)(short);
unsigned short (*p4)(unsigned short);
int (*p5)(int);
unsigned int (*p6)(unsigned int);
long (*p7)(long);
unsigned long (*p8)(unsigned long);
long long (*p9)(long long);
unsigned long long (*p10)(unsigned long long);
float (*p11)(float);
double (*p12)(double);
long double (*p13)(long double);
char *(*p14)(char *);
num (*p15)(num);
byte (*p16)(byte);
enum e (*p17)(enum e);
SP (*p18)(SP);
S *(*p19)(S *, int);
void (*p20)(long);
int (*p21)(void);
long (*q1)(char);
long (*q2)(unsigned char);
long (*q3)(short);
long (*q4)(unsigned short);
long (*q5)(int);
long (*q6)(unsigned int);
char (*q7)(long);
unsigned char (*q8)(long);
short (*q9)(long);
unsigned short (*q10)(long);
int (*q11)(long);
unsigned int (*q12)(long);
double (*q13)(long);
float (*q14)(long);
long (*q15)(double);
long (*q16)(float);
num (*q17)(long);
byte (*q18)(long);
int (*pm)(char, double, short, float, long, char *, unsigned char, int *);

int main()
{
	int k; long v; double d; float f; long double ld; char *s; S x; S *y; enum e ee;
	p1 = &t1; p2 = &t2; p3 = &t3; p4 = &t4; p5 = &t5; p6 = &t6; p7 = &t7; p8 = &t8; p9 = &t9; p10 = &t10;
	p11 = &t11; p12 = &t12; p13 = &t13; p14 = &t14; p15 = &t15; p16 = &t16; p17 = &t17; p18 = &t18; p19 = &t19; p20 = &t20; p21 = &t21;
	q1 = &n1; q2 = &n2; q3 = &n3; q4 = &n4; q5 = &n5; q6 = &n6; q7 = &n7; q8 = &n8; q9 = &n9; q10 = &n10; q11 = &n11; q12 = &n12;
	q13 = &n13; q14 = &n14; q15 = &n15; q16 = &n16; q17 = &n17; q18 = &n18;
	for (k = 0; k < 8; k++) {
		v = 0;
		if (k == 1) v = 1;
		if (k == 2) v = 0 - 1;
		if (k == 3) v = 127;
		if (k == 4) v = 200;
		if (k == 5) v = 40000;
		if (k == 6) v = 3000000000;
		if (k == 7) v = 0 - 5000000001;
		printf("%d %d %d %d %d %u ", p1(v), p2(v), p3(v), p4(v), p5(v), p6(v));
		printf("%ld %lu %lld %llu %d %d\n", p7(v), p8(v), p9(v), p10(v), p15(v), p16(v));
		printf("%ld %ld %ld %ld %ld %ld ", q1(v), q2(v), q3(v), q4(v), q5(v), q6(v));
		printf("%d %d %d %d %d %u %d %d\n", q7(v), q8(v), q9(v), q10(v), q11(v), q12(v), q17(v), q18(v));
		d = v; f = k; ld = v;
		d = p12(d); f = p11(f); ld = p13(ld);
		printf("%f %f %Lf ", d, f, ld);
		d = q13(v); printf("%f ", d);
		f = q14(k); printf("%f ", f);
		printf("%ld %ld\n", q15(d), q16(f));
		p20(k); printf("%d\n", log);
	}
	ee = p17(B); printf("%d\n", ee);
	s = p14("text"); printf("%s\n", s);
	x.k = 5; x.c = 'c';
	y = p18(&x); printf("%d %c\n", y->k, y->c);
	y = p19(&x, 9); printf("%d %d\n", y->k, x.k);
	k = p21(); printf("%d\n", k);
	p21 = &t22; k = p21(); printf("%d\n", k);
	pm = &mix; k = 3; d = 1.5; f = 2.25;
	v = pm(-1, d, -300, f, 1234567890123, "mix", 250, &k);
	printf("%ld %d\n", v, k);
	return 0;
}

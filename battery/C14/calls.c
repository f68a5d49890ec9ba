#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <ctype.h>
long labs(long x);
unsigned long strtoul(const char *s, char **e, int b);
double strtod(const char *s, char **e);
double ldexp(double x, int e);
void *memset(void *p, int c, unsigned long n);
int abs(int x);
int vals;
int bump(int k) { vals = vals * 10 + k; return k; }
int main()
{
	char buf[200]; char c; unsigned char uc; short s; unsigned short us; int i; unsigned int ui; long l; unsigned long ul; float f; double d; char *p; char *e; int k; int n; long v;
	int (*pa)(int); long (*pl)(long); int (*pp)(const char *fmt, ...); double (*pd)(const char *s, char **e);
	for (k = 0; k < 7; k++) {
		if (k == 0) v = 0; if (k == 1) v = 127; if (k == 2) v = 128; if (k == 3) v = 0 - 1; if (k == 4) v = 65535 + 3; if (k == 5) v = 4294967295 + 7; if (k == 6) v = 0 - 32769;
		c = v; uc = v; s = v; us = v; i = v; ui = v; l = v; ul = v; f = i; d = i;
		printf("%d %d %d %d %d %u %ld %lu %f %f\n", c, uc, s, us, i, ui, l, ul, f, d);
		printf("%x %x %x %x %x %x %lx %lx\n", c, uc, s, us, i, ui, l, ul);
		i = abs(s); printf("%d", i); i = abs(c); printf(" %d", i); l = labs(c); printf(" %ld", l); l = labs(i); printf(" %ld", l); l = labs(ui); printf(" %ld", l); l = labs(us); printf(" %ld\n", l);
		printf("%ld %ld\n", labs(v), labs(v - 5));
		d = ldexp(s, 3); printf("%f", d); d = ldexp(f, uc); printf(" %f\n", d); d = ldexp(3, c); printf("%g\n", d); d = ldexp(1.5, 4); printf("%f\n", d);
		printf("%d\n", toupper(97 + k)); printf("%d %d\n", isdigit(45 + k) != 0, isalpha(90 + k) != 0);
	}
	printf("%d %d %d %d %d %d %d %d %d %d %d %d\n", 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12);
	printf("%f %d %f %d %f %f %f %f %f %f %f %f %f\n", 1.5, 1, 2.5, 2, 3.5, 4.5, 5.5, 6.5, 7.5, 8.5, 9.5, 10.5, 11.5);
	f = 0.1; printf("%.10f %.10f\n", f, 0.1); f = 16777217; printf("%.1f\n", f);
	printf("%s %c %s %p\n", "text", 120, "more", 0);
	n = snprintf(buf, 200, "%d-%s-%ld", 5, "abc", 1234567890123); printf("%d %s\n", n, buf);
	n = snprintf(buf, sizeof(buf), "%d%%", c); printf("%d %s\n", n, buf);
	n = sprintf(buf, "none"); printf("%d %s\n", n, buf);
	ul = strtoul("12345678901xyz", &e, 10); printf("%lu %s\n", ul, e);
	ul = strtoul("-1", &e, 10); printf("%lu\n", ul);
	d = strtod("2.5e3k", &e); printf("%f %s\n", d, e);
	p = strchr("hello world", 111); printf("%s\n", p); p = strchr("hello", 122); printf("%d\n", p == 0);
	p = strstr("hello world", "wor"); printf("%s %d\n", p, (int)strlen(p));
	memset(buf, 65, 7); buf[7] = 0; printf("%s %d\n", buf, (int)strlen(buf)); memset(buf + 2, 66 + 256, 2); printf("%s\n", buf);
	printf("%d %d %d\n", strcmp("abc", "abc"), strcmp("abc", "abd") < 0, strncmp("abcdef", "abcxyz", 3));
	p = malloc(20); strcpy(p, "dynamic"); strcat(p, "ally"); printf("%s\n", p); p = realloc(p, 300); printf("%s\n", p); free(p);
	p = calloc(4, 5); k = 0; for (i = 0; i < 20; i++) k = k + p[i]; printf("%d\n", k); free(p);
	i = atoi("-42") + 1; printf("%d\n", i); l = atol("-9999999999"); printf("%ld\n", l);
	pa = &abs; i = pa(0 - 9); printf("%d\n", i); pl = &labs; l = pl(0 - 5000000000); printf("%ld\n", l);
	pp = &printf; n = pp("%d %s %f %c\n", 7, "through a pointer", 2.5, c); printf("%d\n", n); s = 0 - 3; uc = 250; f = 0.5; pp("%d %d %f\n", s, uc, f);
	pd = &strtod; d = pd("0.125", 0); printf("%f\n", d);
	vals = 0; printf("%d %d\n", bump(1), bump(1)); printf("%d\n", vals);
	c = toupper(300 - 200); printf("%d\n", c); uc = abs(0 - 300); printf("%d\n", uc);
	return 0;
}

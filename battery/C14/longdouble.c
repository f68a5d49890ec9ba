#include <stdio.h>
#include <stdlib.h>
long double strtold(const char *s, char **e);
float strtof(const char *s, char **e);
long long llabs(long long x);
long long atoll(const char *s);
unsigned long long strtoull(const char *s, char **e, int b);
enum color { RED, GREEN = 70, BLUE };
typedef unsigned char byte;
int main() { long double x; float f; double d; long long ll; unsigned long long ull; enum color c; byte b; byte *p;
 x = strtold("3.5", 0); printf("%Lf\n", x); f = strtof("2.75", 0); printf("%f\n", f); f = strtof("1e10", 0); printf("%f\n", f); d = strtof("0.1", 0); printf("%.12f\n", d);
 ll = llabs(0 - 5000000001); printf("%lld\n", ll); ll = atoll("-123456789012345"); printf("%lld\n", ll); ull = strtoull("18446744073709551615", 0, 10); printf("%llu\n", ull);
 c = BLUE; printf("%d %d\n", c, GREEN); b = 200; printf("%d %x\n", b, b); p = &b; printf("%d\n", *p); return 0; }

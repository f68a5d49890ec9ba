// flags: -l m
/* parameters of external functions whose types have names */
typedef double real;
typedef real number;
typedef float single;
typedef unsigned char byte;
typedef short half;
typedef long wide;
typedef unsigned long size;
extern int printf(const char *f, ...);
extern real sqrt(real x);
extern number pow(number x, real y);
extern single fabsf(single x);
extern wide labs(wide v);
extern int abs(int v);
extern int toupper(int c);
extern number ldexp(number x, int e);
int main(void)
{
    int i = 16;
    byte b = 25;
    half h = -3;
    single f = 2.25;
    wide w = -70000000000;
    printf("%f %f %f\n", sqrt(4), sqrt(i), sqrt(b));
    printf("%f %f\n", sqrt(f), sqrt(10000.0));
    printf("%f %f %f\n", pow(2, 3), pow(i, h), pow(f, 2));
    printf("%f %f %f\n", fabsf(-4), fabsf(h), fabsf(-1.5));
    printf("%ld %ld %ld\n", labs(w), labs(-5), labs(h));
    printf("%d %d\n", abs(h), toupper('q'));
    printf("%f %f\n", ldexp(3, 4), ldexp(f, h));
    return 0;
}

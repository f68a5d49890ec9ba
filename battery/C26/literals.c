#include <stdio.h>
int main()
{
    long l;
    unsigned long u;
    unsigned char c;
    char s;
    double d;
    float f;

    l = 0; printf("%ld\n", l);
    l = 00; printf("%ld\n", l);
    l = 017; printf("%ld\n", l);
    l = 0777777777777777777777; printf("%ld\n", l);
    l = 9223372036854775807; printf("%ld\n", l);
    l = 1234567890123456789; printf("%ld\n", l);
    l = 0x7fffffffffffffff; printf("%ld\n", l);
    u = 0xffffffffffffffff; printf("%lu\n", u);
    u = 0xDeadBeefCafe; printf("%lx\n", u);
    u = 01777777777777777777777; printf("%lu\n", u);
    u = 0x0; printf("%lu\n", u);
    l = 0x10 + 010 + 10; printf("%ld\n", l);
    l = 2147483648; printf("%ld\n", l);
    l = -2147483649; printf("%ld\n", l);
    c = 'a'; printf("%d\n", c);
    c = '\n'; printf("%d\n", c);
    c = '\\'; printf("%d\n", c);
    c = '\r'; printf("%d\n", c);
    c = '"'; printf("%d\n", c);
    c = '0'; printf("%d\n", c);
    c = ' '; printf("%d\n", c);
    c = '~'; printf("%d\n", c);
    c = '?'; printf("%d\n", c);
    d = 0.1; printf("%.17g\n", d);
    d = 3.14159265358979323846; printf("%.17g\n", d);
    d = 0.0; printf("%.17g\n", d);
    d = 00.5; printf("%.17g\n", d);
    d = 10.0; printf("%.17g\n", d);
    d = 123456789.123456789; printf("%.17g\n", d);
    d = 0.000000000000000000000000000000000001; printf("%.17g\n", d);
    d = 9007199254740993.0; printf("%.17g\n", d);
    d = 0.30000000000000004; printf("%.17g\n", d);
    d = -0.7; printf("%.17g\n", d);
    d = 100000000000000000000000000000000000000000000000000000000000.9; printf("%.17g\n", d);
    return 0;
}

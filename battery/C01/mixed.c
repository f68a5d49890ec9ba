int printf(const char *f, ...);

int main()
{
    char c; short s; int i; long l;
    unsigned char uc; unsigned short us; unsigned int ui; unsigned long ul;
    long r;

    c = 100; s = 30000; i = 2000000000; l = 4000000000000;
    uc = 200; us = 60000; ui = 4000000000; ul = 5000000000000;

    r = c + s; printf("%ld\n", r);
    r = s * c; printf("%ld\n", r);
    r = l - i; printf("%ld\n", r);
    r = l - ui; printf("%ld\n", r);
    r = ul - uc; printf("%ld\n", r);
    r = us - s; printf("%ld\n", r);
    r = ul / l; printf("%ld\n", r);
    r = ul % l; printf("%ld\n", r);
    r = l / us; printf("%ld\n", r);
    r = l % c; printf("%ld\n", r);
    r = i / uc; printf("%ld\n", r);
    r = ui / i; printf("%ld\n", r);
    r = ui % s; printf("%ld\n", r);
    r = l | ui; printf("%ld\n", r);
    r = ul & ui; printf("%ld\n", r);
    r = l ^ ul; printf("%ld\n", r);
    r = c | us; printf("%ld\n", r);
    r = l >> c - 90; printf("%ld\n", r);
    r = ui >> c - 90; printf("%ld\n", r);
    r = ul >> uc - 190; printf("%ld\n", r);
    r = l << c - 90; printf("%ld\n", r);
    c = -100; s = -30000; i = -2000000000; l = -4000000000000;
    r = c + s; printf("%ld\n", r);
    r = s * c; printf("%ld\n", r);
    r = i / s; printf("%ld\n", r);
    r = i % s; printf("%ld\n", r);
    r = l / c; printf("%ld\n", r);
    r = l % uc; printf("%ld\n", r);
    r = c * uc; printf("%ld\n", r);
    r = c - us; printf("%ld\n", r);
    r = s >> 3; printf("%ld\n", r);
    r = l >> 20; printf("%ld\n", r);
    r = l | c; printf("%ld\n", r);
    r = i & s; printf("%ld\n", r);
    r = c ^ i; printf("%ld\n", r);
    r = ~s + -c; printf("%ld\n", r);
    return 0;
}

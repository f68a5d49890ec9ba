int printf(const char *f, ...);

struct in { short s; unsigned char c; long l; };
struct out { int before; struct in deep; unsigned int after; };

int calls = 0;

int seen(int v)
{
    calls = calls * 10 + v;
    return v;
}

long wide(long v)
{
    return v;
}

unsigned char narrow(unsigned char v)
{
    return v;
}

int main()
{
    struct out o;
    struct out *p;
    int a[5];
    unsigned short us;
    char c;
    long l;
    unsigned long ul;
    int i;

    p = &o;
    o.before = 11;
    o.after = 7;
    o.deep.s = -300;
    o.deep.c = 250;
    o.deep.l = 1000000000000;
    for (i = 0; i < 5; i++)
        a[i] = i * i - 3;

    printf("%d\n", o.before + o.deep.s);
    printf("%d\n", p->before - p->deep.s);
    printf("%ld\n", p->deep.l * 3 + o.before);
    printf("%ld\n", p->deep.l / 7 - a[4]);
    printf("%d\n", o.deep.c % 9);
    printf("%d\n", o.deep.c << 3);
    printf("%d\n", o.deep.s >> 2);
    printf("%d\n", a[0] * a[4] + a[2] * a[3]);
    printf("%d\n", a[a[2] + 1]);
    printf("%d\n", (a[4] - a[3]) * (a[3] - a[2]) - (a[2] - a[1]) * (a[1] - a[0]));
    printf("%d\n", seen(1) + seen(2) * seen(3) - seen(4));
    printf("%d\n", calls);
    calls = 0;
    printf("%d\n", (seen(6) | seen(1)) ^ (seen(5) & seen(4)));
    printf("%d\n", calls);
    printf("%ld\n", wide(5000000000) - wide(4999999999) + narrow(511));
    us = 65535;
    c = -1;
    printf("%d\n", us + c);
    printf("%d\n", us * 2 - c);
    l = -9223372036854775807;
    printf("%ld\n", l / 10);
    printf("%ld\n", l % 10);
    printf("%ld\n", -l);
    printf("%ld\n", ~l);
    l = l - 1;
    printf("%ld\n", l >> 62);
    printf("%ld\n", l >> 63);
    ul = 9223372036854775808;
    printf("%lu\n", ul + 9223372036854775807);
    printf("%lu\n", ul >> 63);
    printf("%lu\n", ul / 3);
    printf("%lu\n", ul | 1);
    printf("%lu\n", ul ^ 9223372036854775809);
    printf("%d\n", -7 / 2);
    printf("%d\n", -7 % 2);
    printf("%d\n", 7 / -2);
    printf("%d\n", 7 % -2);
    printf("%d\n", -7 >> 1);
    printf("%d\n", -1 & 255);
    printf("%d\n", ~0 ^ 15);
    printf("%d\n", -(-(3)));
    printf("%d\n", !seen(0) + !seen(5) * 2 + !!seen(9) * 4);
    printf("%d\n", ~seen(7) + ~~seen(8));
    for (i = 0; i < 3; i++)
        printf("%d %d %d %d\n", ~5, -5, !5, -a[i]);
    return 0;
}

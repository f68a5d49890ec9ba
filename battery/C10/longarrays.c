int printf(const char *f, ...);

struct a { char c; long double d[2]; };
struct b { char c; long double d[1]; char e; };
struct c { short s; struct b many[2]; char t; };
struct d { char c; double d[5]; short s[3]; int i; };
union e { char c[17]; long double d[2]; };
struct f { char c; union e u; char *p[3]; };

int main()
{
    struct a a;
    struct b b;
    struct c c;
    struct d d;
    union e e;
    struct f f;
    struct a list[2];

    printf("%d %d\n", (int)sizeof(a), (int)((char *)&a.d[0] - &a.c));
    printf("%d %d %d\n", (int)sizeof(b), (int)((char *)&b.d[0] - &b.c), (int)(&b.e - &b.c));
    printf("%d %d %d\n", (int)sizeof(c), (int)((char *)&c.many[1].c - (char *)&c.s), (int)(&c.t - (char *)&c.s));
    printf("%d %d %d %d\n", (int)sizeof(d), (int)((char *)&d.d[0] - &d.c), (int)((char *)&d.s[0] - &d.c), (int)((char *)&d.i - &d.c));
    printf("%d\n", (int)sizeof(e));
    printf("%d %d %d\n", (int)sizeof(f), (int)((char *)&f.u.c[0] - &f.c), (int)((char *)&f.p[0] - &f.c));
    printf("%d\n", (int)((char *)&list[1].d[1] - &list[0].c));
    list[0].d[0] = 1.5;
    list[0].d[1] = 2.5;
    list[1].d[0] = 3.5;
    list[1].d[1] = 4.5;
    list[1].c = 'x';
    printf("%f %f %f %f %c\n", (double)list[0].d[0], (double)list[0].d[1], (double)list[1].d[0], (double)list[1].d[1], list[1].c);
    return 0;
}

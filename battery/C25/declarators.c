// declarators, specifiers and initialisers
#include <stdio.h>

typedef unsigned long int big;
typedef int *ip, pair[2], (*op)(int, int);
struct point { int x, y, *z; char name[4]; } origin, *where;
struct list { struct list *next; struct { int k; } in; int v; };
union both { int i; char c[4]; };
enum color { RED, GREEN = 5, BLUE };
static int hidden = 4;
int unsigned mixed = 3;
long short_name(void);

int add(int a, int b)
{
    return a + b;
}

int sub(int, int);

int *pick(int *a, int *b)
{
    return *a > *b ? a : b;
}

int apply(int (*f)(int, int), int a, int b)
{
    return f(a, b);
}

int total(int v[3])
{
    return v[0] + v[1] + v[2];
}

int none(void)
{
    return 11;
}

int sub(int a, int b)
{
    return a - b;
}

int main()
{
    int a = 1, b = a + 1, *p = &b, **q = &p;
    char c = 'x', *s = "text joined";
    int v[3];
    int *u[2];
    int (*fn)(int, int) = &add;
    op g = &sub;
    ip r = &a;
    pair t;
    big l = 1;
    struct list x, *y = &x;
    union both o;
    enum color e = BLUE;
    short int si = 3;
    unsigned char uc = 255;
    long int long ll = 1;

    v[0] = 1; v[1] = 2; v[2] = 3;
    u[0] = &a; u[1] = &v[2];
    t[0] = 5; t[1] = 6;
    x.next = y;
    x.in.k = 8;
    y->next->v = 9;
    o.i = 0;
    o.c[0] = 'A';
    origin.x = 1;
    origin.y = 2;
    where = &origin;
    where->z = &where->y;

    printf("%d %d %d %d\n", a, b, *p, **q);
    printf("%c %s\n", c, s);
    printf("%d %d\n", total(v), *u[0] + *u[1]);
    printf("%d %d %d\n", fn(2, 3), g(2, 3), apply(&sub, 9, 4));
    printf("%d %d\n", apply(fn, 1, 1), *pick(&a, &b));
    printf("%d %d %d\n", *r, t[0] + t[1], (int)l);
    printf("%d %d\n", y->in.k, x.next->next->v);
    printf("%d %d\n", o.i, *where->z);
    printf("%d %d %d %d\n", RED, GREEN, e, hidden);
    printf("%d %d %d\n", sizeof(struct point), sizeof(big), sizeof(int *));
    printf("%d %d %d %d\n", si, uc, mixed, none());
    printf("%d %d\n", sizeof(l), sizeof(ll));
    printf("%d\n", (unsigned char)(a + 511));
    r = (int *)&v[1];
    printf("%d\n", *r);

    return 0;
}

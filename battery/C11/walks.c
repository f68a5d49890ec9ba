int printf(const char *f, ...);

struct node { int v; struct node *next; char name[6]; };
struct grid { short cells[6]; struct node *home; };

int sum(int *from, int *to)
{
    int s;
    s = 0;
    while (from != to) {
        s = s + *from;
        from++;
    }
    return s;
}

void fill(short *p, int n, short v)
{
    int i;
    for (i = 0; i < n; i++)
        p[i] = v + i;
}

int *at(int *p, int n)
{
    return p + n;
}

int main()
{
    int a[8];
    int *p;
    int *q;
    int **pp;
    char text[12];
    char *c;
    long l[3];
    double d[4];
    struct node n[4];
    struct node *w;
    struct grid g;
    struct grid *gp;
    int i;

    for (i = 0; i < 8; i++)
        a[i] = i * i;
    printf("%d %d\n", sum(a, a + 8), sum(&a[2], &a[5]));
    p = a;
    printf("%d %d %d\n", *(p + 3), p[3], *(a + 3));
    p = p + 7;
    printf("%d %d\n", *p, *(p - 2));
    q = a + 2;
    printf("%d %d %d\n", q[0], q[1], q[-1]);
    *at(a, 4) = 1000;
    printf("%d\n", a[4]);
    *(a + 5) = 55;
    printf("%d %d\n", a[5], *at(a, 5));
    pp = &p;
    *pp = &a[1];
    printf("%d\n", *p);
    **pp = 77;
    printf("%d\n", a[1]);
    (*pp)++;
    printf("%d %d\n", *p, **pp);
    for (i = 0; i < 11; i++)
        text[i] = 'a' + i;
    text[11] = 0;
    c = text + 3;
    printf("%s %c %c\n", c, *(c + 2), c[-3]);
    *c = 0;
    printf("%s %s\n", text, c + 1);
    for (i = 0; i < 3; i++)
        l[i] = 10000000000 * (i + 1);
    printf("%ld %ld\n", *(l + 2), l[1] - *l);
    d[0] = 0.5;
    d[1] = 1.5;
    d[2] = 2.5;
    d[3] = d[1];
    printf("%f %f\n", *(d + 2), *(&d[3]));
    for (i = 0; i < 4; i++) {
        n[i].v = i + 1;
        n[i].name[0] = 'A' + i;
        n[i].name[1] = 0;
        n[i].next = i < 3 ? &n[i + 1] : 0;
    }
    for (w = n; w; w = w->next)
        printf("%d%s ", w->v, w->name);
    printf("\n");
    w = &n[1];
    printf("%d %s\n", w->next->next->v, w->next->name);
    w = w + 2;
    printf("%d\n", w->v);
    (*w).v = 40;
    printf("%d %d\n", n[3].v, (w - 1)->v);
    fill(g.cells, 6, -2);
    g.home = &n[2];
    gp = &g;
    for (i = 0; i < 6; i++)
        printf("%d ", gp->cells[i]);
    printf("\n");
    printf("%d %s\n", gp->home->v, gp->home->next->name);
    gp->home->next->v = 41;
    printf("%d\n", n[3].v);
    p = &gp->home->v;
    *p = -3;
    printf("%d\n", n[2].v);
    fill(gp->cells + 2, 2, 100);
    printf("%d %d %d %d\n", g.cells[1], g.cells[2], g.cells[3], g.cells[4]);
    p = 0;
    printf("%d %d\n", p == 0, !p);
    return 0;
}

int printf(const char *f, ...);

struct in { unsigned char c; short s; };
struct out { int i; struct in n; long *l; struct out *next; };

unsigned int global = 4294967295;
int at = 0;

int where()
{
    at = at + 1;
    return at;
}

int main()
{
    struct out o;
    struct out q;
    struct out *p;
    struct out many[3];
    long longs[4];
    char text[6];
    char *t;
    char **tt;
    int a[6];
    int i;

    for (i = 0; i < 6; i++)
        a[i] = i * 10;
    p = &o;
    o.i = 5;
    o.n.c = 255;
    o.n.s = -32768;
    o.l = longs;
    o.next = &q;
    q.i = 2147483646;
    longs[0] = 100;
    longs[1] = 200;
    longs[2] = 300;

    printf("%d\n", o.i++);
    printf("%d\n", ++p->i);
    printf("%d\n", p->i--);
    printf("%d %d\n", --o.i, 0);
    printf("%d\n", o.n.c++);
    printf("%d\n", o.n.c);
    printf("%d\n", --p->n.c);
    printf("%d\n", p->n.s--);
    printf("%d\n", p->n.s);
    printf("%d\n", ++o.n.s);
    printf("%d\n", ++p->next->i);
    printf("%d\n", p->next->i--);
    printf("%d\n", q.i);
    printf("%ld\n", *o.l);
    o.l++;
    printf("%ld\n", *o.l);
    ++p->l;
    printf("%ld\n", *p->l);
    p->l--;
    printf("%ld\n", (*p->l)++);
    printf("%ld\n", longs[1]);
    printf("%u\n", global++);
    printf("%u\n", global--);
    printf("%u\n", global);
    a[where()]++;
    a[where()]--;
    printf("%d %d %d %d at %d\n", a[0], a[1], a[2], a[3], at);
    printf("%d\n", a[a[0]++]);
    printf("%d %d\n", a[0], a[1]);
    t = text;
    for (i = 0; i < 5; i++)
        *t++ = 'a' + i;
    *t = 0;
    printf("%s\n", text);
    tt = &t;
    (*tt)--;
    printf("%c\n", *t);
    --*tt;
    printf("%c\n", **tt);
    ++**tt;
    printf("%s\n", text);
    p = many;
    for (i = 0; i < 3; i++) {
        p->i = i;
        p++;
    }
    p--;
    printf("%d\n", p->i);
    --p;
    printf("%d %d\n", p->i, p - many == 1);
    for (i = 3; i-- > 0;)
        printf("%d ", i);
    printf("%d\n", i);
    return 0;
}

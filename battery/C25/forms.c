int printf(const char *f, ...);

typedef int number, *numbers;
struct s { int a, *b; unsigned c; } first, *second;
union u { int i; char c[4]; };
int x = 1, *px, y = 2;
int ax[3];
unsigned u1 = 7;
long int li = 8;


int prototype(int a, char *b)
{
    return a + *b;
}

int one(void)
{
    return 1;
}

int main(int argc, char **argv)
{
    number n, *np;
    numbers ns;
    int l[4];
    struct s *p, o, many[2];
    int k = 5;
    int i, j;
    char c = 'c', *t = "text";

    n = x + y;
    np = &n;
    ns = np;
    l[3] = *ns * 2;
    px = &ax[1];
    *px = 4;
    second = &first;
    second->a = 10;
    second->b = &second->a;
    p = &o;
    (*p).a = -(*second->b);
    many[1].a = p->a - -3;
    printf("%d %d %d %d %d\n", n, *np, l[3], ax[1], many[1].a);
    printf("%d %d %ld %d\n", k, u1, li, prototype(1, t));
    printf("%d\n", 2 + 3 * 4 - 6 / 2 % 2);
    printf("%d\n", (2 + 3) * (4 - 6) / 2);
    printf("%d\n", 1 << 2 + 1);
    printf("%d\n", 1 | 2 ^ 3 & 6);
    printf("%d\n", 5 & 3 == 3);
    printf("%d\n", 1 < 2 == 2 > 1);
    printf("%d\n", 0 || 1 && 0);
    printf("%d\n", !0 + 1);
    printf("%d\n", -x + y);
    printf("%d\n", ~x & 255);
    printf("%d\n", *px++ + 1);
    printf("%d\n", px == &ax[2]);
    printf("%d\n", *&n);
    printf("%d\n", (char)c + 1);
    printf("%d\n", (int)'a' * 2);
    printf("%d\n", x ? y ? 1 : 2 : 3);
    printf("%d\n", x - 1 ? 1 : y - 2 ? 2 : 3);
    i = j = 6;
    printf("%d %d\n", i, j);
    i += j -= 2;
    printf("%d %d\n", i, j);
    i <<= 2;
    i ^= 3;
    j >>= 1;
    printf("%d %d\n", i, j);
    printf("%d\n", one() + one() * 3);
    j = 0; for (i = 0; i < 2; i++)
        j = j + 5;
    if (i) if (j == 0) printf("a\n"); else printf("b\n");
    while (i) i--;
    ;
    {}
    { int i; i = 3; { ; } printf("%d\n", i); }
    return i;
}

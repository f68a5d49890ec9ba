int printf(const char *f, ...);

struct s { short a; unsigned char b; char *p; };

int calls = 0;

int seen(int v)
{
    calls = calls * 10 + v;
    return v;
}

int main()
{
    struct s x;
    struct s *p;
    int a[4];
    char *q;
    char t[8];
    int i;
    long big;
    unsigned long ubig;

    p = &x;
    x.a = -5;
    x.b = 250;
    for (i = 0; i < 4; i++)
        a[i] = 3 - i;
    for (i = 0; i < 4; i++) {
        printf("%d %d %d %d %d %d\n", a[i] < 1, a[i] <= 1, a[i] > 1, a[i] >= 1, a[i] == 1, a[i] != 1);
        printf("%d %d\n", a[i] == a[3 - i], a[i] < a[3 - i]);
    }
    printf("%d %d %d\n", p->a < x.b, p->a == -5, p->b >= 250);
    printf("%d %d\n", x.a < p->a, x.a <= p->a);
    calls = 0;
    printf("%d\n", seen(1) < seen(2));
    printf("%d\n", (seen(3) == seen(3)) == 1);
    printf("%d\n", calls);
    calls = 0;
    printf("%d\n", seen(0) && seen(1));
    printf("%d\n", seen(2) && seen(0));
    printf("%d\n", seen(3) && seen(4));
    printf("%d\n", seen(5) || seen(6));
    printf("%d\n", seen(0) || seen(7));
    printf("%d\n", seen(0) || seen(0));
    printf("%d\n", calls);
    calls = 0;
    printf("%d\n", seen(1) && seen(0) || seen(2) && seen(3));
    printf("%d\n", (seen(0) || seen(4)) && (seen(0) || seen(5)));
    printf("%d\n", calls);
    printf("%d\n", !(seen(0) || seen(0)) && !seen(0));
    big = 4294967296;
    printf("%d %d %d\n", big && 1, big || 0, !big);
    printf("%d %d %d\n", big > 4294967295, big == 4294967296, big != 0);
    big = -9223372036854775807;
    printf("%d %d %d\n", big < -9223372036854775806, big - 1 < big, big < 0);
    ubig = 18446744073709551615;
    printf("%d %d %d\n", ubig > 18446744073709551614, ubig == 18446744073709551615, ubig && 1);
    q = t;
    printf("%d %d %d\n", q == t, q + 1 == t + 1, q != t + 1);
    printf("%d %d\n", 2 < 10, -2 < -10);
    printf("%d %d %d\n", 5 > 3 == 1, 1 == 2 < 3, 3 != 2 > 1);
    i = 256;
    if (i && a[3] == 0)
        printf("both\n");
    if (!(i && a[3]))
        printf("not both\n");
    while (i > 0 && a[0] != 0) {
        i = i / 4;
        a[0] = a[0] - 1;
    }
    printf("%d %d\n", i, a[0]);
    return 0;
}

int printf(const char *f, ...);

struct p { int x; char name[4]; };
int depth = 0;

int body(int round)
{
    struct p local;
    struct p list[3];
    struct p *q;
    enum { LOW = 3, NEXT, HIGH = 10 };
    int a[4];
    int i;
    char *s;
    long l;
    unsigned char uc;

    for (i = 0; i < 4; i++)
        a[i] = (i + NEXT) * 2 - round;
    s = "literal";
    q = &local;
    q->x = -HIGH;
    uc = 250 + round;
    l = 1 << 10;
    l = l << 10;
    list[round % 3].x = a[round % 4]++;
    printf("%d: %d %d %d %s %d %d %ld\n", round, a[0], a[3], list[round % 3].x, s + round % 7, q->x, uc, l);
    printf("%d %d %d %d\n", ~round, -round, !round, round ? LOW : HIGH);
    printf("%d %d\n", sizeof(a), sizeof(struct p));
    if (round && a[0] > 0 || round == 2)
        printf("and %d\n", (char)(round * 100));
    uc += round;
    l -= 5;
    l >>= 2;
    printf("%d %ld\n", uc, l);
    if (depth == 0 && round == 1) {
        depth = 1;
        body(1);
        depth = 0;
    }
    return a[round % 4];
}

int main()
{
    int i;
    int total;
    total = 0;
    for (i = 0; i < 4; i++)
        total = total + body(i);
    printf("%d\n", total);
    total = 0;
    while (i-- > 0)
        total = total * 10 + body(i) % 10;
    printf("%d\n", total);
    return 0;
}

int printf(const char *f, ...);

struct s { int a; char c; };

int tick()
{
    static int n = 5;
    n = n + 1;
    return n;
}

int tock()
{
    static int n = 50;
    n--;
    return n;
}

int big()
{
    static long v = 5000000000;
    static unsigned char wraps = 254;
    static short neg = -3;
    v = v * 2;
    wraps++;
    neg--;
    printf("%ld %d %d\n", v, wraps, neg);
    return 0;
}

char *buffer(char c)
{
    static char text[8];
    static int used = 0;
    text[used++] = c;
    text[used] = 0;
    return text;
}

int *cell()
{
    static int v = 1;
    return &v;
}

int nested(int depth)
{
    static int most = 0;
    if (depth > most)
        most = depth;
    if (depth < 4)
        nested(depth + 1);
    return most;
}

int inner(int which)
{
    int r;
    r = 0;
    if (which) {
        static int first = 100;
        first++;
        r = first;
    } else {
        static int first = 200;
        first--;
        r = first;
    }
    return r;
}

struct s *remember(int v)
{
    static struct s kept;
    static int *where;
    int local;
    local = v;
    if (v > 0) {
        kept.a = v;
        kept.c = 'a' + v;
        where = &kept.a;
    }
    local = *where;
    return &kept;
}

static int file_level = 3;

int bump()
{
    file_level = file_level * 3;
    return file_level;
}

int main()
{
    int i;
    char *b;
    for (i = 0; i < 3; i++)
        printf("%d %d\n", tick(), tock());
    big();
    big();
    big();
    b = buffer('x');
    buffer('y');
    printf("%s\n", buffer('z'));
    printf("%s\n", b);
    *cell() = 9;
    printf("%d\n", *cell());
    (*cell())++;
    printf("%d\n", *cell());
    printf("%d\n", nested(1));
    printf("%d\n", nested(3));
    for (i = 0; i < 6; i++)
        printf("%d ", inner(i % 3));
    printf("\n");
    remember(4);
    printf("%d %c\n", remember(0)->a, remember(0)->c);
    remember(6);
    printf("%d %c\n", remember(-1)->a, remember(-2)->c);
    bump();
    bump();
    printf("%d\n", file_level);
    return 0;
}

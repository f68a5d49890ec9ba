int printf(const char *f, ...);

int count = 0;

int step(int v)
{
    count++;
    return v;
}

int find(int wanted)
{
    int i;
    int j;
    for (i = 0; i < 5; i++) {
        j = 0;
        while (j < 5) {
            if (i * 10 + j == wanted)
                return i * 100 + j;
            if (j > i)
                break;
            j++;
        }
        if (i == 4)
            return -i;
    }
    return 999;
}

int deep(int n)
{
    if (n == 0)
        return 0;
    {
        int k;
        k = n;
        {
            for (;;) {
                while (1) {
                    if (k > 3)
                        break;
                    return deep(n - 1) + 1;
                }
                k--;
            }
        }
    }
    return -100;
}

void nothing(int a)
{
    if (a > 2)
        return;
    printf("small %d\n", a);
}

int chain(int a)
{
    if (a < 0)
        return -1;
    else if (a == 0)
        return 0;
    else if (a < 10)
        return 1;
    else
        return 2;
}

int main()
{
    int i;
    int j;
    int r;
    int a[5];
    char *s;

    printf("%d %d %d %d\n", find(0), find(11), find(23), find(77));
    printf("%d\n", deep(6));
    for (i = 0; i < 5; i++)
        nothing(i);
    printf("%d %d %d %d\n", chain(-5), chain(0), chain(5), chain(50));
    for (i = 0; i < 3; i++)
        for (j = 0; j < 3; j++) {
            if (j == 2)
                break;
            if (i == 1)
                break;
            printf("%d%d ", i, j);
        }
    printf("\n");
    i = 0;
    while (step(i) < 4)
        i = i + 2;
    printf("%d %d\n", i, count);
    count = 0;
    for (i = step(0); step(i) < 3; i = step(i) + 1)
        ;
    printf("%d %d\n", i, count);
    for (; i > 0;)
        i--;
    printf("%d\n", i);
    for (i = 0; ; i++) {
        if (i == 7)
            break;
    }
    printf("%d\n", i);
    s = "end";
    i = 0;
    while (*s) {
        i = i * 10 + (*s == 'n');
        s++;
    }
    printf("%d\n", i);
    i = 5;
    while (i)
        i--;
    printf("%d\n", i);
    for (i = 0; i < 5; i++)
        a[i] = i > 2 ? i == 4 ? 44 : 33 : i ? 11 : 0;
    printf("%d %d %d %d %d\n", a[0], a[1], a[2], a[3], a[4]);
    count = 0;
    r = 1 ? step(1) : step(2) + step(3);
    printf("%d %d\n", r, count);
    r = 0 ? step(1) : step(2) + step(3);
    printf("%d %d\n", r, count);
    if (0)
        printf("no\n");
    if (4294967296)
        printf("yes\n");
    if (a[0])
        ;
    else
        printf("else\n");
    if (a[4]) {
        if (a[0])
            printf("inner\n");
        else
            printf("inner else\n");
    }
    {
        int i;
        i = 3;
        while (i-- > 0) {
            int j;
            j = i * i;
            if (j == 1)
                break;
        }
        printf("%d\n", i);
    }
    printf("%d\n", i);
    return 0;
}

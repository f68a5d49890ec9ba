// statements mean what their text nests them as
#include <stdio.h>

int f(int a, int b)
{
    if (a)
        if (b)
            return 1;
        else
            return 2;

    if (a) {
        if (b)
            return 3;
    } else
        return 4;

    return 5;
}

int g(int n)
{
    int k;

    for (k = 0; k < 10; k++)
        if (k == n)
            break;
        else if (k > n)
            return -1;
        else
            ;

    return k;
}

int h(int a, int b, int c)
{
    if (a) if (b) if (c) return 1; else return 2; else return 3; else return 4;
    return 5;
}

int w(int n)
{
    int s = 0;
    while (n)
        while (n & 1)
            n--, s++;
    ;
    return s;
}

int main()
{
    int i, j, s;

    for (i = 0; i < 2; i++)
        for (j = 0; j < 2; j++)
            printf("%d %d: %d\n", i, j, f(i, j));

    for (i = 0; i < 8; i++)
        printf("%d ", h(i & 4, i & 2, i & 1));

    printf("\n%d %d %d\n", g(3), g(0), g(12));

    s = 0;
    for (i = 0; i < 5; i++)
        ;
    printf("%d\n", i);

    for (i = 0, j = 10; i < j; i++, j--)
        s += i * j;
    printf("%d %d %d\n", i, j, s);

    i = 3;
    while (i--)
        printf("%d", i);
    printf("\n");

    i = (1, 2, 3);
    printf("%d\n", i);
    i = 1, j = 2, s = 3;
    printf("%d %d %d\n", i, j, s);

    {
        int i = 9;
        {
            int i = 10;
            printf("%d\n", i);
        }
        printf("%d\n", i);
    }
    printf("%d\n", i);

    i = j = s = 7;
    printf("%d %d %d\n", i, j, s);
    i -= j -= 2;
    printf("%d %d\n", i, j);
    i ^= 5; printf("%d\n", i);
    i <<= 3; printf("%d\n", i);
    i >>= 1; printf("%d\n", i);
    i /= 3; printf("%d\n", i);
    i = s > 5 ? s < 7 ? 1 : 2 : 3; printf("%d\n", i);
    i = s < 5 ? 1 : s < 8 ? 2 : 3; printf("%d\n", i);
    printf("%d %d\n", sizeof(int) * 2, sizeof i + 1);
    printf("%d %d\n", - - i, !!i);
    printf("%d\n", i+++s);
    printf("%d %d\n", i, s);

    return 0;
}

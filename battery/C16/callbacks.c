#include <stdio.h>
#include <stdlib.h>

int compare(const void *a, const void *b)
{
    int *x = a, *y = b, i, w = 0;
    for (i = 0; i < 3; i++)
        w += i;
    if (*x < *y)
        return -1;
    if (*x > *y)
        return 1;
    return 0;
}

int twice(int x)
{
    return x * 2;
}

int main(void)
{
    int a[120], i, n = 0;
    int (*f)(int);
    f = &twice;
    for (i = 0; i < 120; i++)
        a[i] = (i * 37) % 120;
    qsort(a, 120, sizeof(int), &compare);
    for (i = 0; i < 120; i++)
        if (a[i] != i)
            n++;
    printf("%d misplaced\n", n);
    for (i = 0; i < 1500; i++)
        n += f(i);
    printf("%d\n", n);
    qsort(a, 120, sizeof(int), &compare);
    printf("%d %d %d\n", a[0], a[60], a[119]);
    return 0;
}

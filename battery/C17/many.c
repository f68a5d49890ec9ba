#include <stdio.h>

/* more objects alive at once than the table has room for at first */
int depth(int n)
{
    int a = n, b = n + 1, c = n + 2;
    int r;
    if (n == 0)
        return 0;
    r = depth(n - 1);
    if (a != n || b != n + 1 || c != n + 2)
        printf("lost at %d\n", n);
    return r + a + b + c - 2 * n;
}

int main(void)
{
    int i;
    long t = 0;
    printf("%d\n", depth(400));
    for (i = 0; i < 6000; i++)
        t += i;
    printf("%ld\n", t);
    printf("%d\n", depth(400));
    return 0;
}

#include <stdio.h>

enum colour { RED, GREEN = 5, BLUE };
typedef unsigned long word;
int global = 3;
word big = 0;

int find(int n)
{
    int i;
    for (i = 2; i < n; i++) {
        int j = 0;
        while (1) {
            j += i;
            if (j == n)
                return 0;
            if (j > n)
                break;
        }
    }
    return 1;
}

int cond(int x)
{
    return x > 5 ? (x & 1 ? GREEN : BLUE) : (x == 0 || x == 3 ? RED : -x);
}

int main(void)
{
    int i, primes = 0, c = 0;
    char buf[40];
    for (i = 2; i < 60; i++)
        primes += find(i);
    printf("%d primes\n", primes);
    for (i = 0; i < 400; i++) {
        c += cond(i % 12);
        global = global + (i % 3 ? 1 : -1);
        big = big * 31 + i;
        sprintf(buf, "%d-%d", i, c);
    }
    printf("%d %d %lu %s\n", c, global, big, buf);
    {
        int k = 0;
        {
            int l = 4;
            for (i = 0; i < 900; i++) { int m = l; k += m; }
            printf("%d %d\n", k, l);
        }
    }
    return 0;
}

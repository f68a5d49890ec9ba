// args: 1 2 3 4 5 6 7 8 9 10 11 12 13 14 15 16 17 18 19 20 21 22 23 24 25 26 27 28 29 30 31 32 33 34 35 36 37 38 39 40
#include <stdio.h>
#include <stdlib.h>
int main(int argc, char **argv)
{
    int i, s;
    s = 0;
    for (i = 1; i < argc; i++)
        s = s + i * atoi(argv[i]);
    printf("%d %d\n", argc, s);
    return s == 22140;
}

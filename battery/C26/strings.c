#include <stdio.h>
#include <string.h>

void dump(char *s, int n)
{
    int i;
    for (i = 0; i < n; i++)
        printf("%d ", s[i]);
    printf("\n");
}

int main()
{
    dump("", 1);
    dump("abc", 4);
    dump("a\nb\tc", 6);
    dump("\\ \" '", 6);
    dump("\1011", 3);
    dump("\7\60\101", 4);
    dump("a\0b", 4);
    dump("\0", 2);
    dump("\12\n", 3);
    dump("// no comment /* none */", 25);
    dump("%d\\n", 5);
    dump("x\\", 3);
    dump("\377\200", 3);
    dump("\0011\18", 5);
    dump("?'`~!@#$^&*()_+{}|:<>", 22);
    printf("%lu\n", strlen("a long string, a long string, a long string, a long string, a long string, a long string, a long string\n"));
    printf("%lu %lu\n", strlen(""), strlen("\\\\"));
    return 0;
}

// args: x y
#include <stdio.h>
int n;
struct s { int main; } t;
int f(char **v) { n++; return puts(v[1]); }
int main(int count, char **strings)
{
    t.main = 3;
    f(strings);
    printf("%d %s %d\n", count, strings[2], n);
    return t.main;
}
int mains(int a, int b, int c) { return 4; }
int *other() { return 0; }

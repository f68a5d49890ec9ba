// names that aren't types stay what they are, tags have names of their own
#include <stdio.h>
typedef struct tag *tagp;
struct tag { int number; };
int number = 3;
int tag = 4;
typedef int num;
struct num { int num2; };
enum word { W };
typedef long word;
int f(int a, int b) { return a * b; }
typedef int (*function)(int a, int b);
typedef struct in { int deep; struct un { int x; } u; } in;
int deep = 5, x = 6, a = 7, b = 8, un = 9;

int main()
{
    struct num s;
    enum word e;
    word w;
    in i;
    tagp t;
    struct tag u;
    function g;

    t = &u;
    t->number = 10;
    s.num2 = 11;
    e = W;
    w = 12;
    i.deep = 13; i.u.x = 14;
    g = &f;
    printf("%d\n", number * tag);
    printf("%d\n", deep * x + a * b - un);
    printf("%d %d %d %ld %d %d %d\n", t->number, s.num2, e, w, i.deep, i.u.x, g(a, b));
    return 0;
}

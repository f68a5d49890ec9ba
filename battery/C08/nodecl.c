#include <stdio.h>
static struct s { int a; };
static enum { A, B = 5 };
typedef struct t { int b; };
extern union u { char c; long l; };
struct v { int d; };
int f(int k)
{
    struct s x;
    struct w { int e; };
    struct w y;

    x.a = k;
    y.e = x.a + B;
    return y.e;
}
int main()
{
    struct t x;
    union u y;
    struct v z;

    x.b = 2;
    y.l = 66;
    z.d = 3;
    printf("%d %d %d %d %d %d\n", f(1), f(2), x.b, y.c, z.d, A);
    return 0;
}

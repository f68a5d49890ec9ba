// every operator on constants, strings and addresses, executed many times
#include <stdio.h>
#include <string.h>

struct s { int a; struct s *n; int v[2]; };
enum e { ONE = 1, THREE = 3 };
int g[3];

int id(int a)
{
    return a;
}

int main()
{
    int i, k;
    long l;
    float f;
    char *t;
    struct s o;

    o.n = &o;
    for (i = 0; i < 4; i++) {
        printf("%d %d %d %d %d %d\n", 7 + 2, 7 - 9, 7 * 3, 7 / 2, 7 % 4, -7 + 0);
        printf("%d %d %d %d %d %d\n", ~5, !5, !0, 6 & 3, 6 | 3, 6 ^ 3);
        printf("%d %d %d %d\n", 3 << 4, 1000 >> 3, 1 ? 2 : 3, 0 ? 2 : 3);
        printf("%d %d %d %d %d %d\n", 1 < 2, 2 > 1, 2 <= 1, 1 >= 2, 1 == 2, 1 != 2);
        printf("%d %d %d\n", 1 && 0, 0 || 2, (1, 2, 3));
        printf("%d %d %d %d\n", (char)300, (unsigned char)-1, (short)70000, (int)3);
        printf("%d %d %d\n", ONE + THREE, sizeof(struct s), sizeof(int[3]));
        printf("%.2f %s %c\n", 2.25, "string", 'c');
        k = 5;
        l = -1;
        f = 1.5;
        t = "text";
        k += 2;
        l *1;
        k <<= 1;
        o.a = 9;
        o.n->v[1] = 4;
        (&o)->v[0] = 3;
        *(g + 2) = 8;
        printf("%d %ld %.1f %s %d %d %d %d\n", k, l, f, t, o.n->n->a, o.v[0] + o.v[1], g[2], strlen("four"));
        printf("%d %d\n", id(4), id(id(~2)));
        {
            int w[2], z = 6;
            enum r { BLUE = 2, GREEN };
            struct q { char c; int i; } u;
            u.i = GREEN;
            w[1] = z + u.i;
            printf("%d %d\n", w[1], sizeof(struct q));
        }
    }
    return 0;
}

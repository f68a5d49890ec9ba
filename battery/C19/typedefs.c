#include <stdio.h>

typedef int number, *pointer, row[3], (*handler)(number);
typedef unsigned long word;
typedef struct pair { number a; pointer b; } pair;
typedef struct { word w; pair p; row r; } big, *bigp;
typedef union either { char c; long l; } either;
typedef enum colour { RED, GREEN = 5, BLUE } colour;
typedef pair pair2;
typedef pair2 *pairp;
typedef struct node node;
struct node { node *next; int v; };
typedef char *string, letter, letters[4];
typedef struct later *laterp;
struct later { laterp self; number n; };

number twice(number n) { return n * 2; }
pointer at(pointer p, number i) { return p + i; }
word sum(row r, number n) { word s; number i; s = 0; for (i = 0; i < n; i++) s += r[i]; return s; }
colour other(colour c) { if (c == RED) return BLUE; return RED; }

int main()
{
    number n = 3;
    pointer p = &n;
    row r;
    handler h;
    pair q;
    pair2 q2;
    pairp qp;
    big b;
    bigp bp;
    struct pair tagged;
    union either e1;
    either e2;
    enum colour c1;
    colour c2;
    node x, y;
    string s;
    letter c;
    letters cs;
    struct later l;
    laterp lp;
    int i;

    r[0] = 1; r[1] = 2; r[2] = 3;
    h = &twice;
    q.a = 4; q.b = p;
    q2.a = 5;
    qp = &q2;
    bp = &b;
    b.w = 6; b.p.a = 7; b.r[2] = 8;
    tagged.a = 9;
    e1.l = 65; e2.l = 66;
    c1 = GREEN; c2 = other(RED);
    x.next = &y; y.v = 10;
    s = "text"; c = 'x'; cs[1] = c;
    l.n = 11; lp = &l; l.self = lp;
    printf("%d %d %d %d\n", *p, *at(r, 2), h(21), (int)sum(r, 3));
    printf("%d %d %d %d\n", *q.b, qp->a, tagged.a, (int)bp->w + bp->p.a + bp->r[2]);
    printf("%c %c %d %d %d\n", e1.c, e2.c, c1, c2, x.next->v);
    printf("%s %c %c %d\n", s, c, cs[1], lp->self->n);
    printf("%lu %lu %lu %lu\n", sizeof(number), sizeof(row), sizeof(big), sizeof(letters));
    printf("%d %d\n", (letter)353, (number)3000000000);
    for (i = 0; i < 3; i++) {
        typedef short local;
        local v;
        v = 70000 + i;
        printf("%d\n", v);
    }
    return 0;
}

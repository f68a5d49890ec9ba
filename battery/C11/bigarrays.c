// arrays and pointers to elements of many sizes
int printf(const char *format, ...);

struct big {
    long id;
    char pad[200];
    int tail;
};

struct odd {
    char a;
    short b[70];
    char c;
};

struct big bigs[5];
struct odd odds[9];

int main()
{
    int i;
    struct big *p = &bigs[0];
    struct odd *q = &odds[0];

    for (i = 0; i < 5; i++) {
        bigs[i].id = 1000 + i;
        bigs[i].tail = -i;
        bigs[i].pad[199] = 'a' + i;
    }
    for (i = 0; i < 5; i++)
        printf("%ld %d %c\n", bigs[i].id, bigs[i].tail, bigs[i].pad[199]);
    for (i = 0; i < 4; i++) {
        printf("%ld %c\n", (*p).id, (*p).pad[199]);
        p++;
    }
    p = &bigs[1];
    printf("%ld %ld\n", p->id, p[3].id);
    p = p + 2;
    printf("%ld %d\n", p->id, p->tail);
    p = p - 3;
    printf("%ld\n", p->id);

    for (i = 0; i < 9; i++) {
        odds[i].a = 'A' + i;
        odds[i].c = 'z' - i;
        odds[i].b[0] = i * 3;
        odds[i].b[69] = i * 5;
    }
    for (i = 0; i < 9; i++)
        printf("%c %c %d %d\n", q[i].a, q[i].c, q[i].b[0], q[i].b[69]);
    q = &odds[8];
    for (i = 0; i < 8; i++) {
        q--;
        printf("%c%d ", q->a, q->b[69]);
    }
    printf("\n%d\n", (char *)&odds[7] - (char *)&odds[0] == 7 * sizeof(struct odd));
    return 0;
}

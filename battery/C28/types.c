// types are denoted again by the same text
int printf(const char *f, ...);
struct node { int v; struct node *next; };
typedef struct node node_t;
int sum(node_t *n) {
    int r = 0;
    while (n != (node_t *)0) { r = r + n->v; n = n->next; }
    return r;
}
long conv(int i) {
    unsigned short s;
    short t;
    signed char c;
    s = (unsigned short)(70000 + i);
    t = (short)(40000 + i);
    c = (signed char)(200 + i);
    return s + t + c + (long)sizeof(unsigned long int) + sizeof(int *) + sizeof(struct node) + sizeof(node_t *);
}
int main() {
    int i, j;
    node_t a, b, c;
    for (i = 0; i < 4; i++) {
        a.v = i; a.next = &b; b.v = i * 2; b.next = &c; c.v = i * 3; c.next = (node_t *)0;
        printf("%d %ld\n", sum(&a), conv(i));
        for (j = 0; j < 2; j++) { node_t d; d.v = j; d.next = &a; printf("%d;", sum(&d)); }
        printf("\n");
    }
    return 0;
}

#include <stdio.h>
#include <stdlib.h>
#include <string.h>

struct node { int value; struct node *next; };
struct pair { long a; char name[12]; struct node *list; };

static int counter(void)
{
    static int n = 100;
    n = n + 1;
    return n;
}

struct node *cons(int v, struct node *n)
{
    struct node *r;
    r = malloc(sizeof(struct node));
    r->value = v;
    r->next = n;
    return r;
}

int sum(struct node *n)
{
    int s = 0;
    while (n != 0) {
        s += n->value;
        n = n->next;
    }
    return s;
}

int fib(int n)
{
    int local = n;
    if (n < 2)
        return local;
    return fib(n - 1) + fib(local - 2);
}

int deep(int n)
{
    int a[4];
    struct pair p;
    int i;
    for (i = 0; i < 4; i++)
        a[i] = n * 10 + i;
    p.a = n;
    p.list = cons(n, cons(n + 1, 0));
    strcpy(p.name, "level");
    if (n > 0) {
        int r;
        r = deep(n - 1);
        for (i = 0; i < 4; i++)
            if (a[i] != n * 10 + i)
                printf("array lost at %d\n", n);
        if (p.a != n)
            printf("member lost at %d\n", n);
        if (strcmp(p.name, "level") != 0)
            printf("name lost at %d\n", n);
        if (sum(p.list) != 2 * n + 1)
            printf("list lost at %d\n", n);
        return r + p.a;
    }
    return 0;
}

int main(void)
{
    int i, j, t = 0;
    struct node *l = 0;
    char *s = "a string constant";
    struct pair p;
    p.a = 77;
    strcpy(p.name, "outer");
    p.list = 0;
    for (i = 0; i < 300; i++) {
        l = cons(i, l);
        for (j = 0; j < 6; j++) {
            int inner = i * j;
            t += inner;
        }
        if (counter() != 101 + i)
            printf("static lost at %d\n", i);
    }
    printf("%d %d\n", sum(l), t);
    printf("%d\n", fib(11));
    for (i = 0; i < 12; i++)
        printf("%d ", deep(i));
    printf("\n%s %ld %s\n", s, p.a, p.name);
    return 0;
}

// mode: native
// sources: list.c
#include <stdio.h>
#include <string.h>
#include "list.h"

/* rings of up to 6 elements, every operation at every place, compared with arrays */
static list h, e[16], g, f[16];

static void show(const char *what, list *head)
{
    list *p;
    int n = 0;
    printf("%s:", what);
    for (p = head->next; p != head && p && n < 40; p = p->next, n++)
        printf(" %c%d", p >= f && p < f + 16 ? 'f' : 'e', (int)(p >= f && p < f + 16 ? p - f : p - e));
    if (p != head) printf(" broken");
    printf(" |");
    n = 0;
    for (p = head->prev; p != head && p && n < 40; p = p->prev, n++)
        printf(" %c%d", p >= f && p < f + 16 ? 'f' : 'e', (int)(p >= f && p < f + 16 ? p - f : p - e));
    if (p != head) printf(" broken");
    printf(" %s\n", list_empty(head) ? "empty" : "not empty");
}

static void make(int n)
{
    int i;
    memset(e, 0, sizeof(e));
    INIT_LIST(&h);
    for (i = 0; i < n; i++)
        list_add_tail(&e[i], &h);
}

int main(void)
{
    int n, i, m;
    for (n = 0; n < 6; n++) {
        make(n);
        show("tail", &h);
        list_add(&e[10], &h);
        show("add", &h);
        for (i = 0; i < n; i++) {
            make(n);
            list_del(&e[i]);
            printf("%d%d ", e[i].next == NULL, e[i].prev == NULL);
            show("del", &h);
            list_add_tail(&e[i], &h);
            show("again", &h);
            make(n);
            list_add(&e[10], &e[i]);
            list_add_tail(&e[11], &e[i]);
            show("at", &h);
        }
        for (m = 0; m < 4; m++) {
            make(n);
            INIT_LIST(&g);
            for (i = 0; i < m; i++)
                list_add_tail(&f[i], &g);
            list_splice(&g, &h);
            show("splice", &h);
        }
    }
    return 0;
}

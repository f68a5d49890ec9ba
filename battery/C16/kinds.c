// args: first
// env: MALLOC_PERTURB_=165
// a collection in the middle of each kind of expression, statement and declaration
#include <stdio.h>
#include <stdlib.h>
#include <string.h>

int work(int n)
{
    int i, s = 0;
    for (i = 0; i < 130; i++) { int k = i; s += k * 0; }
    return n + s;
}

struct in { char c; int v[3]; };
struct out { struct in a, b; struct in *p; double d; int (*fn)(int); };
union u { int i; char c[8]; struct in s; };
enum e { ONE = 1, NINE = 9, TEN };
typedef struct in in_t;
typedef int *intp;

int garr[5];
struct out gout;
union u gu;
enum e ge = TEN;
char *gs = "global string";
double gd = 1.5;
intp gp;

int add(int a, char b, short c, double d) { int r; work(0); r = a + b + c + (int)d; work(0); return r; }
char *text(int n) { work(0); if (n) return "text one"; return "text two"; }
struct out *outp(int n) { work(n); return &gout; }
int counter(void) { static int n = 5; static char buf[4]; work(0); n += 1; buf[0] = n; work(0); return n * 100 + buf[0]; }
int sel(int n) { if (work(n) > 3) { work(0); return work(1); } else { work(0); return work(2); } }
int loop(int n)
{
    int i, t = 0;
    for (i = work(0); i < work(n); i = work(i) + 1) { int j = work(i); while (work(j) > 0) { j = work(j) - 1; if (work(t) > 40) break; t = work(t) + 1; } }
    return t;
}
int cmp(const void *a, const void *b) { int *x = a, *y = b; work(0); return *x - *y; }

int main(int argc, char *argv[])
{
    int x = 3, y, i;
    char *s;
    in_t loc;
    union u lu;
    struct out lo;
    int a[4];
    int (*f)(int);
    double d;
    float fl;
    long l;
    intp ip;
    char buf[40];

    for (i = 0; i < 5; i++) garr[work(i)] = work(i) * 10;
    y = garr[work(1)] + garr[work(2)] * work(3) - (garr[work(4)] / work(3)) % work(7);
    printf("%d\n", y);
    y = (work(1) << work(3)) | (work(12) & work(10)) ^ ~work(5); printf("%d\n", y);
    y = work(1) == work(1) && work(2) != work(1) || !work(0); printf("%d\n", y);
    y = work(1) < work(2); printf("%d\n", y);
    y = work(1) ? work(5) : work(6); printf("%d\n", y);
    y = work(0) ? work(5) : work(6); printf("%d\n", y);
    y = (work(1), work(2), work(3)); printf("%d\n", y);
    y = add(work(100), (char)work(65), (short)work(7), (double)work(4)); printf("%d\n", y);
    x += work(4); x <<= work(1); x -= work(3); x ^= work(1); printf("%d\n", x);
    d = work(3); printf("%f\n", d);
    fl = work(8); printf("%f\n", fl);
    l = (long)work(7) * 1000000000; printf("%ld\n", l);
    s = text(work(1)); work(0); printf("%s %s\n", s, text(work(0)));
    loc.c = work(80); loc.v[work(2)] = work(33); loc.v[work(0)] = work(11); loc.v[1] = 0;
    printf("%c %d %d\n", loc.c, loc.v[work(2)], loc.v[work(0)]);
    gout.a.v[work(1)] = work(21); gout.p = &loc; gout.d = work(2); gout.fn = &work; gout.b.c = work(81);
    printf("%d %d %f %c\n", gout.a.v[work(1)], outp(work(0))->p->v[work(2)], outp(1)->d, outp(2)->b.c);
    f = gout.fn; y = f(work(9)); printf("%d\n", y);
    f = &sel; y = f(work(9)) + f(work(0)); printf("%d\n", y);
    gu.i = work(0); gu.c[work(1)] = work(1); printf("%d\n", gu.i); lu.s.v[work(1)] = work(44); printf("%d\n", lu.s.v[1]);
    lo.p = &gout.a; printf("%d\n", lo.p->v[work(1)]);
    ge = work(0) ? ONE : NINE; printf("%d %d\n", ge, work(0) + TEN);
    gp = &garr[work(3)]; ip = gp - work(1); printf("%d %d\n", *gp, *(ip + work(2)));
    printf("%d ", *gp); gp = gp + 1; work(0); printf("%d\n", *gp);
    i = work(2); y = i++ + work(0); printf("%d %d ", i, y); y = --i + work(0); printf("%d %d\n", i, y);
    printf("%d %d\n", sel(work(9)), sel(work(1)));
    printf("%d %d\n", loop(4), loop(2));
    printf("%d ", counter()); printf("%d ", counter()); printf("%d\n", counter());
    for (i = 0; i < 4; i++) a[i] = work(40 - i * 7);
    qsort(a, 4, sizeof(int), &cmp);
    printf("%d %d %d %d\n", a[0], a[1], a[2], a[3]);
    { char inner[12]; struct in deep; enum loc_e { P = 3, Q }; strcpy(inner, "in here"); deep.v[1] = work(Q); work(0); printf("%s %d %d\n", inner, deep.v[1], P); }
    sprintf(buf, "%d-%s-%d", work(1), text(work(0)), work(2)); work(0); printf("%s\n", buf);
    work(0);
    printf("%d %s %s %f\n", argc, argv[1], gs, gd);
    l = sizeof(struct out) + work(0); printf("%ld\n", l);
    return work(5);
}

int printf(const char *f, ...);

typedef unsigned short word;
typedef struct pair { char c; double d; } pair_t;
typedef char *text;
struct mixed { char a; word b[3]; pair_t p; text t; long double ld; };
union any { char c[9]; int i; short s; };
struct one { char c; };
enum e { A, B };

int function(int a)
{
    return a;
}

int main()
{
    char c; short s; int i; long l; float f; double d; long double ld;
    unsigned char uc;
    char *p; int **pp; text t; word w;
    struct mixed m; struct mixed *mp; union any u; struct one o; struct one many[7];
    pair_t pairs[3]; enum e en;
    int a[10]; long la[3]; text ta[4]; word wa[5];

    printf("%d %d %d %d\n", sizeof(c), sizeof(s), sizeof(i), sizeof(l));
    printf("%d %d %d %d\n", sizeof(f), sizeof(d), sizeof(ld), sizeof(uc));
    printf("%d %d %d %d\n", sizeof(p), sizeof(pp), sizeof(t), sizeof(w));
    printf("%d %d %d %d %d\n", sizeof(m), sizeof(mp), sizeof(u), sizeof(o), sizeof(many));
    printf("%d %d\n", sizeof(pairs), sizeof(en));
    printf("%d %d %d %d\n", sizeof(a), sizeof(la), sizeof(ta), sizeof(wa));
    printf("%d %d %d\n", sizeof(m.b), sizeof(m.p), sizeof(m.p.d));
    mp = &m;
    printf("%d %d %d\n", sizeof(mp->b), sizeof(mp->t), sizeof(mp->ld));
    printf("%d %d %d\n", sizeof(a[0]), sizeof(wa[1]), sizeof(pairs[2]));
    printf("%d %d %d\n", sizeof(int), sizeof(char), sizeof(unsigned long));
    printf("%d %d %d\n", sizeof(struct mixed), sizeof(union any), sizeof(word));
    printf("%d %d\n", sizeof(a) / sizeof(a[0]), sizeof(wa) / sizeof(word));
    i = sizeof(struct one) + 2 * sizeof(pair_t);
    printf("%d\n", i);
    return 0;
}

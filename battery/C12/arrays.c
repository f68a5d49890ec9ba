// sizes of arrays, of their elements, of members that are arrays and of what pointers to them point to
int printf(const char *f, ...);

struct pair { char c[3]; short s[5]; };
struct outer { struct pair p[2]; char *names[3]; double d[1]; };

char one[1];
char four[4];
char eight[8];
char nine[9];
short s3[3];
int two[2];
long l1[1];

int of_parameter(char *p, int *q) { int n; n = sizeof p; n += sizeof q * 10; n += sizeof *p * 100; n += sizeof *q * 1000; return n; }

int main()
{
    char l5[5];
    char l8[8];
    float f1[1];
    long double ld[2];
    struct pair sp[1];
    struct outer o;
    struct outer *op = &o;
    char *p = l5;
    int *q = two;
    unsigned long n;

    n = sizeof one; printf("%lu ", n);
    n = sizeof four; printf("%lu ", n);
    n = sizeof eight; printf("%lu ", n);
    n = sizeof nine; printf("%lu ", n);
    n = sizeof s3; printf("%lu ", n);
    n = sizeof two; printf("%lu ", n);
    n = sizeof l1; printf("%lu\n", n);
    n = sizeof l5; printf("%lu ", n);
    n = sizeof l8; printf("%lu ", n);
    n = sizeof f1; printf("%lu ", n);
    n = sizeof ld; printf("%lu ", n);
    n = sizeof sp; printf("%lu ", n);
    n = sizeof o; printf("%lu ", n);
    n = sizeof op; printf("%lu\n", n);
    n = sizeof o.p; printf("%lu ", n);
    n = sizeof o.names; printf("%lu ", n);
    n = sizeof o.d; printf("%lu ", n);
    n = sizeof op->p; printf("%lu ", n);
    n = sizeof op->names; printf("%lu ", n);
    n = sizeof o.p[1].c; printf("%lu ", n);
    n = sizeof o.p[1].s; printf("%lu ", n);
    n = sizeof o.p[1]; printf("%lu\n", n);
    n = sizeof one[0]; printf("%lu ", n);
    n = sizeof s3[1]; printf("%lu ", n);
    n = sizeof l1[0]; printf("%lu ", n);
    n = sizeof sp[0]; printf("%lu ", n);
    n = sizeof o.names[1]; printf("%lu ", n);
    n = sizeof o.p[0].s[1]; printf("%lu ", n);
    n = sizeof *p; printf("%lu ", n);
    n = sizeof *q; printf("%lu ", n);
    n = sizeof *op; printf("%lu\n", n);
    n = sizeof(one); printf("%lu ", n);
    n = sizeof(l5); printf("%lu ", n);
    n = sizeof(two) / sizeof(two[0]); printf("%lu\n", n);
    printf("%d\n", of_parameter(p, q));
    return 0;
}

// status: any failure
int printf(const char *f, ...);
struct s { int a; };
int main()
{
    struct s o;
    int z;
    int r;
    int *p;
    double f;
    z = 0;
    f = 1.5;
    o.a = 1;
    p = &z;
    printf("before\n");
    r = z.a;
    printf("after\n");
    return 0;
}

// status: any failure
int printf(const char *f, ...);
struct s { int a; };
int main()
{
    struct s o;
    char *p;
    int z;
    z = 0;
    o.a = 1;
    p = "text";
    printf("before\n");
    z = o >= 2;
    printf("after %d\n", z);
    return 0;
}

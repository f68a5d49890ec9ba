// status: any failure
int printf(const char *f, ...);
struct s { int a; };
int main()
{
    struct s o;
    int z;
    z = 0;
    o.a = 1;
    printf("before\n");
    z = ~o;
    printf("after %d\n", z);
    return 0;
}

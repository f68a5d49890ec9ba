int printf(const char *f, ...);
struct s { int a; };
union u { char c; };
struct s global;
int size(void)
{
    struct s x;
    union u y;
    x.a = 4;
    y.c = 1;
    return sizeof(x) * 100 + sizeof(y);
}
int caller(void)
{
    struct s { double d[8]; int a; };
    union u { long l[4]; char c; };
    struct s mine;
    union u other;
    mine.a = 1;
    other.c = 2;
    return size() * 1000 + sizeof(mine) + sizeof(other);
}
int main(void)
{
    struct s { long l; int a; };
    struct s m;
    printf("%d %d\n", size(), (int)sizeof(m));
    printf("%d\n", caller());
    {
        union u { double d[3]; };
        union u inner;
        printf("%d %d %d\n", size(), (int)sizeof(inner), (int)sizeof(global));
    }
    return 0;
}

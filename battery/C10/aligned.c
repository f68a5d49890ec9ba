// members of every alignment after every offset; unions whose largest member isn't the last
int printf(const char *format, ...);

struct s1 { char c; long double d; char e; };
struct s2 { char c; short d; char e; };
struct s3 { char c[3]; int d; char e; };
struct s4 { short c[3]; long d; char e; };
struct s5 { char c[9]; long double d; short e; };
struct s6 { int a; struct s1 b; char c; struct s2 d; char e; };
struct s7 { char c[17]; double d; float e; char f; };
struct s8 { char a; void *p; char b; char *q; char c; int (*f)(int); char d; };
union u1 { char a[40]; char b[12]; char c; };
union u2 { char a[9]; int b; short c; };
union u3 { long double a; char b[33]; long c; };
union u4 { struct s6 a; struct s1 b; char c; };
struct s9 { char a; union u2 b; char c; union u3 d; char e; union u1 f; char g; };

int main()
{
    struct s1 a1[3];
    struct s2 a2[3];
    struct s3 a3[3];
    struct s4 a4[3];
    struct s5 a5[3];
    struct s6 a6[3];
    struct s7 a7[3];
    struct s8 a8[3];
    struct s9 a9[3];
    union u1 b1[3];
    union u2 b2[3];
    union u3 b3[3];
    union u4 b4[3];

    printf("%d %d %d\n", (int)((char *)&a1[0].d - (char *)&a1[0]), (int)((char *)&a1[0].e - (char *)&a1[0]), (int)sizeof(a1));
    printf("%d %d %d\n", (int)((char *)&a2[0].d - (char *)&a2[0]), (int)((char *)&a2[0].e - (char *)&a2[0]), (int)sizeof(a2));
    printf("%d %d %d\n", (int)((char *)&a3[0].d - (char *)&a3[0]), (int)((char *)&a3[0].e - (char *)&a3[0]), (int)sizeof(a3));
    printf("%d %d %d\n", (int)((char *)&a4[0].d - (char *)&a4[0]), (int)((char *)&a4[0].e - (char *)&a4[0]), (int)sizeof(a4));
    printf("%d %d %d\n", (int)((char *)&a5[0].d - (char *)&a5[0]), (int)((char *)&a5[0].e - (char *)&a5[0]), (int)sizeof(a5));
    printf("%d %d %d\n", (int)((char *)&a6[0].b.d - (char *)&a6[0]), (int)((char *)&a6[0].d.e - (char *)&a6[0]), (int)sizeof(a6));
    printf("%d %d %d\n", (int)((char *)&a7[0].d - (char *)&a7[0]), (int)((char *)&a7[0].f - (char *)&a7[0]), (int)sizeof(a7));
    printf("%d %d %d\n", (int)((char *)&a8[0].q - (char *)&a8[0]), (int)((char *)&a8[0].f - (char *)&a8[0]), (int)sizeof(a8));
    printf("%d %d %d\n", (int)((char *)&a9[0].c - (char *)&a9[0]), (int)((char *)&a9[0].e - (char *)&a9[0]), (int)sizeof(a9));
    printf("%d %d %d %d\n", (int)sizeof(b1), (int)sizeof(b2), (int)sizeof(b3), (int)sizeof(b4));
    printf("%d\n", (int)((char *)&a9[2].g - (char *)&a9[0]));
    return 0;
}

int printf(const char *f, ...);
struct s1 { char a; int b; };
struct s2 { char a; short b; char c; long d; };
struct s3 { struct s1 x; char y; struct s2 z[3]; };
union u1 { char a; int b[5]; long c; };
struct s4 { union u1 u; char t; };
typedef unsigned short us;
typedef struct s2 *sp;
int main()
{
	char c; short s; int i; long l; long long ll; unsigned char uc; unsigned short ush; unsigned int ui; unsigned long ul;
	float f; double d; long double ld; char *p; int a[7]; struct s2 v; struct s2 w[4]; sp q; int *pa[6];
	int n;
	n = sizeof(char); printf("%d ", n);
	n = sizeof(short); printf("%d ", n);
	n = sizeof(int); printf("%d ", n);
	n = sizeof(long); printf("%d ", n);
	n = sizeof(long long); printf("%d ", n);
	n = sizeof(unsigned char); printf("%d ", n);
	n = sizeof(unsigned short); printf("%d ", n);
	n = sizeof(unsigned int); printf("%d ", n);
	n = sizeof(unsigned long); printf("%d ", n);
	n = sizeof(float); printf("%d ", n);
	n = sizeof(double); printf("%d ", n);
	n = sizeof(long double); printf("%d\n", n);
	n = sizeof(char *); printf("%d ", n);
	n = sizeof(int **); printf("%d ", n);
	n = sizeof(struct s2 *); printf("%d ", n);
	n = sizeof(us); printf("%d ", n);
	n = sizeof(sp); printf("%d\n", n);
	n = sizeof(struct s1); printf("%d ", n);
	n = sizeof(struct s2); printf("%d ", n);
	n = sizeof(struct s3); printf("%d ", n);
	n = sizeof(union u1); printf("%d ", n);
	n = sizeof(struct s4); printf("%d\n", n);
	n = sizeof c; printf("%d ", n);
	n = sizeof s; printf("%d ", n);
	n = sizeof i; printf("%d ", n);
	n = sizeof l; printf("%d ", n);
	n = sizeof ll; printf("%d ", n);
	n = sizeof uc; printf("%d ", n);
	n = sizeof ush; printf("%d ", n);
	n = sizeof ui; printf("%d ", n);
	n = sizeof ul; printf("%d ", n);
	n = sizeof f; printf("%d ", n);
	n = sizeof d; printf("%d ", n);
	n = sizeof ld; printf("%d ", n);
	n = sizeof p; printf("%d\n", n);
	n = sizeof a; printf("%d ", n);
	n = sizeof v; printf("%d ", n);
	n = sizeof w; printf("%d ", n);
	n = sizeof q; printf("%d ", n);
	n = sizeof pa; printf("%d\n", n);
	n = sizeof a[0]; printf("%d ", n);
	n = sizeof v.d; printf("%d ", n);
	n = sizeof w[1]; printf("%d ", n);
	n = sizeof(a) / sizeof(a[0]); printf("%d\n", n);
	return 0;
}

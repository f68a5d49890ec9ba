#include <stdio.h>
#include <string.h>
typedef short ROW[3];
typedef long WORD;
enum e { EA, EB };
struct t0 { char c; };
union t1 { short s; char c[5]; };
union t2 {
	short m0;
	unsigned long long m1;
	struct t0 * m2;
	unsigned long long m3;
};
struct t3 {
	enum e m0;
	char m1, *m1p, m1a[3];
};
struct t4 {
	char m0, *m0p, m0a[3];
};
union t5 {
	double m0;
};
union t6 {
	float m0;
	long double m1;
	unsigned int m2[6];
	struct t4 m3;
};
union t7 {
	long m0;
};
struct t8 {
	struct t3 m0;
	char m1, *m1p, m1a[3];
};
union t9 {
	int * m0;
	unsigned int m1;
};
union t10 {
	unsigned short m0;
	unsigned int m1;
	int m2;
	unsigned char m3;
	double m4;
};
union t11 {
	short m0;
	WORD m1;
	struct t0 * m2;
	struct t3 m3[2];
};
int main()
{
	{
		union t2 v, w[2];
		printf("union t2: %d", (int)sizeof(union t2));
		printf(" m0@%ld,%d", (long)&v.m0 - (long)&v, (int)sizeof(v.m0));
		printf(" m1@%ld,%d", (long)&v.m1 - (long)&v, (int)sizeof(v.m1));
		printf(" m2@%ld,%d", (long)&v.m2 - (long)&v, (int)sizeof(v.m2));
		printf(" m3@%ld,%d", (long)&v.m3 - (long)&v, (int)sizeof(v.m3));
		printf(" %d\n", (int)sizeof(w));
	}
	{
		struct t3 v, w[2];
		printf("struct t3: %d", (int)sizeof(struct t3));
		printf(" m0@%ld,%d", (long)&v.m0 - (long)&v, (int)sizeof(v.m0));
		printf(" m1@%ld,%d", (long)&v.m1 - (long)&v, (int)sizeof(v.m1));
		printf(" m1p@%ld,%d", (long)&v.m1p - (long)&v, (int)sizeof(v.m1p));
		printf(" m1a@%ld,%d", (long)&v.m1a[0] - (long)&v, (int)sizeof(v.m1a));
		printf(" %d\n", (int)sizeof(w));
	}
	{
		struct t4 v, w[2];
		printf("struct t4: %d", (int)sizeof(struct t4));
		printf(" m0@%ld,%d", (long)&v.m0 - (long)&v, (int)sizeof(v.m0));
		printf(" m0p@%ld,%d", (long)&v.m0p - (long)&v, (int)sizeof(v.m0p));
		printf(" m0a@%ld,%d", (long)&v.m0a[0] - (long)&v, (int)sizeof(v.m0a));
		printf(" %d\n", (int)sizeof(w));
	}
	{
		union t5 v, w[2];
		printf("union t5: %d", (int)sizeof(union t5));
		printf(" m0@%ld,%d", (long)&v.m0 - (long)&v, (int)sizeof(v.m0));
		printf(" %d\n", (int)sizeof(w));
	}
	{
		union t6 v, w[2];
		printf("union t6: %d", (int)sizeof(union t6));
		printf(" m0@%ld,%d", (long)&v.m0 - (long)&v, (int)sizeof(v.m0));
		printf(" m1@%ld,%d", (long)&v.m1 - (long)&v, (int)sizeof(v.m1));
		printf(" m2@%ld,%d", (long)&v.m2[0] - (long)&v, (int)sizeof(v.m2));
		printf(" m3@%ld,%d", (long)&v.m3 - (long)&v, (int)sizeof(v.m3));
		printf(" %d\n", (int)sizeof(w));
	}
	{
		union t7 v, w[2];
		printf("union t7: %d", (int)sizeof(union t7));
		printf(" m0@%ld,%d", (long)&v.m0 - (long)&v, (int)sizeof(v.m0));
		printf(" %d\n", (int)sizeof(w));
	}
	{
		struct t8 v, w[2];
		printf("struct t8: %d", (int)sizeof(struct t8));
		printf(" m0@%ld,%d", (long)&v.m0 - (long)&v, (int)sizeof(v.m0));
		printf(" m1@%ld,%d", (long)&v.m1 - (long)&v, (int)sizeof(v.m1));
		printf(" m1p@%ld,%d", (long)&v.m1p - (long)&v, (int)sizeof(v.m1p));
		printf(" m1a@%ld,%d", (long)&v.m1a[0] - (long)&v, (int)sizeof(v.m1a));
		printf(" %d\n", (int)sizeof(w));
	}
	{
		union t9 v, w[2];
		printf("union t9: %d", (int)sizeof(union t9));
		printf(" m0@%ld,%d", (long)&v.m0 - (long)&v, (int)sizeof(v.m0));
		printf(" m1@%ld,%d", (long)&v.m1 - (long)&v, (int)sizeof(v.m1));
		printf(" %d\n", (int)sizeof(w));
	}
	{
		union t10 v, w[2];
		printf("union t10: %d", (int)sizeof(union t10));
		printf(" m0@%ld,%d", (long)&v.m0 - (long)&v, (int)sizeof(v.m0));
		printf(" m1@%ld,%d", (long)&v.m1 - (long)&v, (int)sizeof(v.m1));
		printf(" m2@%ld,%d", (long)&v.m2 - (long)&v, (int)sizeof(v.m2));
		printf(" m3@%ld,%d", (long)&v.m3 - (long)&v, (int)sizeof(v.m3));
		printf(" m4@%ld,%d", (long)&v.m4 - (long)&v, (int)sizeof(v.m4));
		printf(" %d\n", (int)sizeof(w));
	}
	{
		union t11 v, w[2];
		printf("union t11: %d", (int)sizeof(union t11));
		printf(" m0@%ld,%d", (long)&v.m0 - (long)&v, (int)sizeof(v.m0));
		printf(" m1@%ld,%d", (long)&v.m1 - (long)&v, (int)sizeof(v.m1));
		printf(" m2@%ld,%d", (long)&v.m2 - (long)&v, (int)sizeof(v.m2));
		printf(" m3@%ld,%d", (long)&v.m3[0] - (long)&v, (int)sizeof(v.m3));
		printf(" %d\n", (int)sizeof(w));
	}
	return 0;
}

#include <stdio.h>
#include <string.h>
typedef short ROW[3];
typedef long WORD;
enum e { EA, EB };
struct t0 { char c; };
union t1 { short s; char c[5]; };
struct t2 {
	char * m0[5];
	short m1[5];
	struct t0 * m2;
	unsigned long long m3[2];
	char m4, *m4p, m4a[3];
};
struct t3 {
	WORD m0;
	int m1[2];
	struct t2 m2;
	char m3;
	struct t0 m4;
};
struct t4 {
	int * m0;
	struct t0 * m1;
	double m2;
	struct t3 m3;
	struct t3 m4;
};
struct t5 {
	WORD m0;
	short m1;
	enum e m2;
	short m3;
	float m4[6];
	long double m5;
};
struct t6 {
	int * m0[5];
	double m1;
	unsigned short m2;
	int (*m3)(int);
};
union t7 {
	enum e m0;
};
union t8 {
	struct t5 m0;
	char m1, *m1p, m1a[3];
	int (*m2)(int);
	struct t6 m3[2];
	struct t4 m4;
	unsigned char m5;
};
struct t9 {
	char m0, *m0p, m0a[3];
	int * m1;
	short m2;
	long m3;
	ROW m4;
	enum e m5;
};
struct t10 {
	struct t0 m0;
	double m1;
	int m2;
	unsigned char m3[3];
	unsigned char m4;
};
union t11 {
	unsigned short m0;
	char m1, *m1p, m1a[3];
	int m2;
	char m3;
	char m4, *m4p, m4a[3];
};
int main()
{
	{
		struct t2 v, w[2];
		printf("struct t2: %d", (int)sizeof(struct t2));
		printf(" m0@%ld,%d", (long)&v.m0[0] - (long)&v, (int)sizeof(v.m0));
		printf(" m1@%ld,%d", (long)&v.m1[0] - (long)&v, (int)sizeof(v.m1));
		printf(" m2@%ld,%d", (long)&v.m2 - (long)&v, (int)sizeof(v.m2));
		printf(" m3@%ld,%d", (long)&v.m3[0] - (long)&v, (int)sizeof(v.m3));
		printf(" m4@%ld,%d", (long)&v.m4 - (long)&v, (int)sizeof(v.m4));
		printf(" m4p@%ld,%d", (long)&v.m4p - (long)&v, (int)sizeof(v.m4p));
		printf(" m4a@%ld,%d", (long)&v.m4a[0] - (long)&v, (int)sizeof(v.m4a));
		printf(" %d\n", (int)sizeof(w));
	}
	{
		struct t3 v, w[2];
		printf("struct t3: %d", (int)sizeof(struct t3));
		printf(" m0@%ld,%d", (long)&v.m0 - (long)&v, (int)sizeof(v.m0));
		printf(" m1@%ld,%d", (long)&v.m1[0] - (long)&v, (int)sizeof(v.m1));
		printf(" m2@%ld,%d", (long)&v.m2 - (long)&v, (int)sizeof(v.m2));
		printf(" m3@%ld,%d", (long)&v.m3 - (long)&v, (int)sizeof(v.m3));
		printf(" m4@%ld,%d", (long)&v.m4 - (long)&v, (int)sizeof(v.m4));
		printf(" %d\n", (int)sizeof(w));
	}
	{
		struct t4 v, w[2];
		printf("struct t4: %d", (int)sizeof(struct t4));
		printf(" m0@%ld,%d", (long)&v.m0 - (long)&v, (int)sizeof(v.m0));
		printf(" m1@%ld,%d", (long)&v.m1 - (long)&v, (int)sizeof(v.m1));
		printf(" m2@%ld,%d", (long)&v.m2 - (long)&v, (int)sizeof(v.m2));
		printf(" m3@%ld,%d", (long)&v.m3 - (long)&v, (int)sizeof(v.m3));
		printf(" m4@%ld,%d", (long)&v.m4 - (long)&v, (int)sizeof(v.m4));
		printf(" %d\n", (int)sizeof(w));
	}
	{
		struct t5 v, w[2];
		printf("struct t5: %d", (int)sizeof(struct t5));
		printf(" m0@%ld,%d", (long)&v.m0 - (long)&v, (int)sizeof(v.m0));
		printf(" m1@%ld,%d", (long)&v.m1 - (long)&v, (int)sizeof(v.m1));
		printf(" m2@%ld,%d", (long)&v.m2 - (long)&v, (int)sizeof(v.m2));
		printf(" m3@%ld,%d", (long)&v.m3 - (long)&v, (int)sizeof(v.m3));
		printf(" m4@%ld,%d", (long)&v.m4[0] - (long)&v, (int)sizeof(v.m4));
		printf(" m5@%ld,%d", (long)&v.m5 - (long)&v, (int)sizeof(v.m5));
		printf(" %d\n", (int)sizeof(w));
	}
	{
		struct t6 v, w[2];
		printf("struct t6: %d", (int)sizeof(struct t6));
		printf(" m0@%ld,%d", (long)&v.m0[0] - (long)&v, (int)sizeof(v.m0));
		printf(" m1@%ld,%d", (long)&v.m1 - (long)&v, (int)sizeof(v.m1));
		printf(" m2@%ld,%d", (long)&v.m2 - (long)&v, (int)sizeof(v.m2));
		printf(" m3@%ld,%d", (long)&v.m3 - (long)&v, (int)sizeof(v.m3));
		printf(" %d\n", (int)sizeof(w));
	}
	{
		union t7 v, w[2];
		printf("union t7: %d", (int)sizeof(union t7));
		printf(" m0@%ld,%d", (long)&v.m0 - (long)&v, (int)sizeof(v.m0));
		printf(" %d\n", (int)sizeof(w));
	}
	{
		union t8 v, w[2];
		printf("union t8: %d", (int)sizeof(union t8));
		printf(" m0@%ld,%d", (long)&v.m0 - (long)&v, (int)sizeof(v.m0));
		printf(" m1@%ld,%d", (long)&v.m1 - (long)&v, (int)sizeof(v.m1));
		printf(" m1p@%ld,%d", (long)&v.m1p - (long)&v, (int)sizeof(v.m1p));
		printf(" m1a@%ld,%d", (long)&v.m1a[0] - (long)&v, (int)sizeof(v.m1a));
		printf(" m2@%ld,%d", (long)&v.m2 - (long)&v, (int)sizeof(v.m2));
		printf(" m3@%ld,%d", (long)&v.m3[0] - (long)&v, (int)sizeof(v.m3));
		printf(" m4@%ld,%d", (long)&v.m4 - (long)&v, (int)sizeof(v.m4));
		printf(" m5@%ld,%d", (long)&v.m5 - (long)&v, (int)sizeof(v.m5));
		printf(" %d\n", (int)sizeof(w));
	}
	{
		struct t9 v, w[2];
		printf("struct t9: %d", (int)sizeof(struct t9));
		printf(" m0@%ld,%d", (long)&v.m0 - (long)&v, (int)sizeof(v.m0));
		printf(" m0p@%ld,%d", (long)&v.m0p - (long)&v, (int)sizeof(v.m0p));
		printf(" m0a@%ld,%d", (long)&v.m0a[0] - (long)&v, (int)sizeof(v.m0a));
		printf(" m1@%ld,%d", (long)&v.m1 - (long)&v, (int)sizeof(v.m1));
		printf(" m2@%ld,%d", (long)&v.m2 - (long)&v, (int)sizeof(v.m2));
		printf(" m3@%ld,%d", (long)&v.m3 - (long)&v, (int)sizeof(v.m3));
		printf(" m4@%ld,%d", (long)&v.m4[0] - (long)&v, (int)sizeof(v.m4));
		printf(" m5@%ld,%d", (long)&v.m5 - (long)&v, (int)sizeof(v.m5));
		printf(" %d\n", (int)sizeof(w));
	}
	{
		struct t10 v, w[2];
		printf("struct t10: %d", (int)sizeof(struct t10));
		printf(" m0@%ld,%d", (long)&v.m0 - (long)&v, (int)sizeof(v.m0));
		printf(" m1@%ld,%d", (long)&v.m1 - (long)&v, (int)sizeof(v.m1));
		printf(" m2@%ld,%d", (long)&v.m2 - (long)&v, (int)sizeof(v.m2));
		printf(" m3@%ld,%d", (long)&v.m3[0] - (long)&v, (int)sizeof(v.m3));
		printf(" m4@%ld,%d", (long)&v.m4 - (long)&v, (int)sizeof(v.m4));
		printf(" %d\n", (int)sizeof(w));
	}
	{
		union t11 v, w[2];
		printf("union t11: %d", (int)sizeof(union t11));
		printf(" m0@%ld,%d", (long)&v.m0 - (long)&v, (int)sizeof(v.m0));
		printf(" m1@%ld,%d", (long)&v.m1 - (long)&v, (int)sizeof(v.m1));
		printf(" m1p@%ld,%d", (long)&v.m1p - (long)&v, (int)sizeof(v.m1p));
		printf(" m1a@%ld,%d", (long)&v.m1a[0] - (long)&v, (int)sizeof(v.m1a));
		printf(" m2@%ld,%d", (long)&v.m2 - (long)&v, (int)sizeof(v.m2));
		printf(" m3@%ld,%d", (long)&v.m3 - (long)&v, (int)sizeof(v.m3));
		printf(" m4@%ld,%d", (long)&v.m4 - (long)&v, (int)sizeof(v.m4));
		printf(" m4p@%ld,%d", (long)&v.m4p - (long)&v, (int)sizeof(v.m4p));
		printf(" m4a@%ld,%d", (long)&v.m4a[0] - (long)&v, (int)sizeof(v.m4a));
		printf(" %d\n", (int)sizeof(w));
	}
	return 0;
}

#include <stdio.h>
#include <string.h>
typedef short ROW[3];
typedef long WORD;
enum e { EA, EB };
struct t0 { char c; };
union t1 { short s; char c[5]; };
union t2 {
	long m0;
	struct t0 m1;
	int * m2;
	char m3, *m3p, m3a[3];
	union t1 m4[1];
};
struct t3 {
	long double m0[4];
};
struct t4 {
	double m0[3];
	double m1;
	short m2[7];
	WORD m3;
};
union t5 {
	unsigned short m0;
};
union t6 {
	double m0;
};
struct t7 {
	WORD m0;
	ROW m1;
	ROW m2;
	enum e m3;
	struct t0 * m4;
};
union t8 {
	enum e m0;
	unsigned int m1;
	float m2;
	long double m3[7];
	long double m4[2];
};
struct t9 {
	char m0, *m0p, m0a[3];
	WORD m1;
	struct t0 * m2;
	long m3[7];
	char * m4;
	union t1 m5;
};
struct t10 {
	long double m0[1];
	float m1;
	unsigned int m2;
};
union t11 {
	short m0;
	char m1, *m1p, m1a[3];
	short m2[5];
	int * m3;
	char * m4;
	char * m5;
};
int main()
{
	{
		union t2 v, w[2];
		printf("union t2: %d", (int)sizeof(union t2));
		printf(" m0@%ld,%d", (long)&v.m0 - (long)&v, (int)sizeof(v.m0));
		printf(" m1@%ld,%d", (long)&v.m1 - (long)&v, (int)sizeof(v.m1));
		printf(" m2@%ld,%d", (long)&v.m2 - (long)&v, (int)sizeof(v.m2));
		printf(" m3@%ld,%d", (long)&v.m3 - (long)&v, (int)sizeof(v.m3));
		printf(" m3p@%ld,%d", (long)&v.m3p - (long)&v, (int)sizeof(v.m3p));
		printf(" m3a@%ld,%d", (long)&v.m3a[0] - (long)&v, (int)sizeof(v.m3a));
		printf(" m4@%ld,%d", (long)&v.m4[0] - (long)&v, (int)sizeof(v.m4));
		printf(" %d\n", (int)sizeof(w));
	}
	{
		struct t3 v, w[2];
		printf("struct t3: %d", (int)sizeof(struct t3));
		printf(" m0@%ld,%d", (long)&v.m0[0] - (long)&v, (int)sizeof(v.m0));
		printf(" %d\n", (int)sizeof(w));
	}
	{
		struct t4 v, w[2];
		printf("struct t4: %d", (int)sizeof(struct t4));
		printf(" m0@%ld,%d", (long)&v.m0[0] - (long)&v, (int)sizeof(v.m0));
		printf(" m1@%ld,%d", (long)&v.m1 - (long)&v, (int)sizeof(v.m1));
		printf(" m2@%ld,%d", (long)&v.m2[0] - (long)&v, (int)sizeof(v.m2));
		printf(" m3@%ld,%d", (long)&v.m3 - (long)&v, (int)sizeof(v.m3));
		printf(" %d\n", (int)sizeof(w));
	}
	{
		union t5 v, w[2];
		printf("union t5: %d", (int)sizeof(union t5));
		printf(" m0@%ld,%d", (long)&v.m0 - (long)&v, (int)sizeof(v.m0));
		printf(" %d\n", (int)sizeof(w));
	}
	{
		union t6 v, w[2];
		printf("union t6: %d", (int)sizeof(union t6));
		printf(" m0@%ld,%d", (long)&v.m0 - (long)&v, (int)sizeof(v.m0));
		printf(" %d\n", (int)sizeof(w));
	}
	{
		struct t7 v, w[2];
		printf("struct t7: %d", (int)sizeof(struct t7));
		printf(" m0@%ld,%d", (long)&v.m0 - (long)&v, (int)sizeof(v.m0));
		printf(" m1@%ld,%d", (long)&v.m1[0] - (long)&v, (int)sizeof(v.m1));
		printf(" m2@%ld,%d", (long)&v.m2[0] - (long)&v, (int)sizeof(v.m2));
		printf(" m3@%ld,%d", (long)&v.m3 - (long)&v, (int)sizeof(v.m3));
		printf(" m4@%ld,%d", (long)&v.m4 - (long)&v, (int)sizeof(v.m4));
		printf(" %d\n", (int)sizeof(w));
	}
	{
		union t8 v, w[2];
		printf("union t8: %d", (int)sizeof(union t8));
		printf(" m0@%ld,%d", (long)&v.m0 - (long)&v, (int)sizeof(v.m0));
		printf(" m1@%ld,%d", (long)&v.m1 - (long)&v, (int)sizeof(v.m1));
		printf(" m2@%ld,%d", (long)&v.m2 - (long)&v, (int)sizeof(v.m2));
		printf(" m3@%ld,%d", (long)&v.m3[0] - (long)&v, (int)sizeof(v.m3));
		printf(" m4@%ld,%d", (long)&v.m4[0] - (long)&v, (int)sizeof(v.m4));
		printf(" %d\n", (int)sizeof(w));
	}
	{
		struct t9 v, w[2];
		printf("struct t9: %d", (int)sizeof(struct t9));
		printf(" m0@%ld,%d", (long)&v.m0 - (long)&v, (int)sizeof(v.m0));
		printf(" m0p@%ld,%d", (long)&v.m0p - (long)&v, (int)sizeof(v.m0p));
		printf(" m0a@%ld,%d", (long)&v.m0a[0] - (long)&v, (int)sizeof(v.m0a));
		printf(" m1@%ld,%d", (long)&v.m1 - (long)&v, (int)sizeof(v.m1));
		printf(" m2@%ld,%d", (long)&v.m2 - (long)&v, (int)sizeof(v.m2));
		printf(" m3@%ld,%d", (long)&v.m3[0] - (long)&v, (int)sizeof(v.m3));
		printf(" m4@%ld,%d", (long)&v.m4 - (long)&v, (int)sizeof(v.m4));
		printf(" m5@%ld,%d", (long)&v.m5 - (long)&v, (int)sizeof(v.m5));
		printf(" %d\n", (int)sizeof(w));
	}
	{
		struct t10 v, w[2];
		printf("struct t10: %d", (int)sizeof(struct t10));
		printf(" m0@%ld,%d", (long)&v.m0[0] - (long)&v, (int)sizeof(v.m0));
		printf(" m1@%ld,%d", (long)&v.m1 - (long)&v, (int)sizeof(v.m1));
		printf(" m2@%ld,%d", (long)&v.m2 - (long)&v, (int)sizeof(v.m2));
		printf(" %d\n", (int)sizeof(w));
	}
	{
		union t11 v, w[2];
		printf("union t11: %d", (int)sizeof(union t11));
		printf(" m0@%ld,%d", (long)&v.m0 - (long)&v, (int)sizeof(v.m0));
		printf(" m1@%ld,%d", (long)&v.m1 - (long)&v, (int)sizeof(v.m1));
		printf(" m1p@%ld,%d", (long)&v.m1p - (long)&v, (int)sizeof(v.m1p));
		printf(" m1a@%ld,%d", (long)&v.m1a[0] - (long)&v, (int)sizeof(v.m1a));
		printf(" m2@%ld,%d", (long)&v.m2[0] - (long)&v, (int)sizeof(v.m2));
		printf(" m3@%ld,%d", (long)&v.m3 - (long)&v, (int)sizeof(v.m3));
		printf(" m4@%ld,%d", (long)&v.m4 - (long)&v, (int)sizeof(v.m4));
		printf(" m5@%ld,%d", (long)&v.m5 - (long)&v, (int)sizeof(v.m5));
		printf(" %d\n", (int)sizeof(w));
	}
	return 0;
}

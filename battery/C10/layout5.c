#include <stdio.h>
#include <string.h>
typedef short ROW[3];
typedef long WORD;
enum e { EA, EB };
struct t0 { char c; };
union t1 { short s; char c[5]; };
union t2 {
	float m0;
	char m1[2];
	long double m2;
};
union t3 {
	int * m0[3];
};
struct t4 {
	unsigned short m0[6];
};
union t5 {
	unsigned short m0[1];
	unsigned char m1[2];
	WORD m2;
	int m3;
	char * m4;
};
struct t6 {
	WORD m0;
	WORD m1;
	long double m2;
	double m3;
	double m4;
	union t1 m5;
};
struct t7 {
	struct t0 * m0;
	enum e m1;
	struct t6 m2;
	struct t4 m3;
	enum e m4;
};
struct t8 {
	char m0[6];
	unsigned char m1;
};
struct t9 {
	long m0[2];
	char m1, *m1p, m1a[3];
	union t1 m2;
	int * m3;
};
union t10 {
	unsigned int m0;
	struct t4 m1;
	int (*m2)(int);
};
struct t11 {
	short m0;
	enum e m1;
	enum e m2;
};
int main()
{
	{
		union t2 v, w[2];
		printf("union t2: %d", (int)sizeof(union t2));
		printf(" m0@%ld,%d", (long)&v.m0 - (long)&v, (int)sizeof(v.m0));
		printf(" m1@%ld,%d", (long)&v.m1[0] - (long)&v, (int)sizeof(v.m1));
		printf(" m2@%ld,%d", (long)&v.m2 - (long)&v, (int)sizeof(v.m2));
		printf(" %d\n", (int)sizeof(w));
	}
	{
		union t3 v, w[2];
		printf("union t3: %d", (int)sizeof(union t3));
		printf(" m0@%ld,%d", (long)&v.m0[0] - (long)&v, (int)sizeof(v.m0));
		printf(" %d\n", (int)sizeof(w));
	}
	{
		struct t4 v, w[2];
		printf("struct t4: %d", (int)sizeof(struct t4));
		printf(" m0@%ld,%d", (long)&v.m0[0] - (long)&v, (int)sizeof(v.m0));
		printf(" %d\n", (int)sizeof(w));
	}
	{
		union t5 v, w[2];
		printf("union t5: %d", (int)sizeof(union t5));
		printf(" m0@%ld,%d", (long)&v.m0[0] - (long)&v, (int)sizeof(v.m0));
		printf(" m1@%ld,%d", (long)&v.m1[0] - (long)&v, (int)sizeof(v.m1));
		printf(" m2@%ld,%d", (long)&v.m2 - (long)&v, (int)sizeof(v.m2));
		printf(" m3@%ld,%d", (long)&v.m3 - (long)&v, (int)sizeof(v.m3));
		printf(" m4@%ld,%d", (long)&v.m4 - (long)&v, (int)sizeof(v.m4));
		printf(" %d\n", (int)sizeof(w));
	}
	{
		struct t6 v, w[2];
		printf("struct t6: %d", (int)sizeof(struct t6));
		printf(" m0@%ld,%d", (long)&v.m0 - (long)&v, (int)sizeof(v.m0));
		printf(" m1@%ld,%d", (long)&v.m1 - (long)&v, (int)sizeof(v.m1));
		printf(" m2@%ld,%d", (long)&v.m2 - (long)&v, (int)sizeof(v.m2));
		printf(" m3@%ld,%d", (long)&v.m3 - (long)&v, (int)sizeof(v.m3));
		printf(" m4@%ld,%d", (long)&v.m4 - (long)&v, (int)sizeof(v.m4));
		printf(" m5@%ld,%d", (long)&v.m5 - (long)&v, (int)sizeof(v.m5));
		printf(" %d\n", (int)sizeof(w));
	}
	{
		struct t7 v, w[2];
		printf("struct t7: %d", (int)sizeof(struct t7));
		printf(" m0@%ld,%d", (long)&v.m0 - (long)&v, (int)sizeof(v.m0));
		printf(" m1@%ld,%d", (long)&v.m1 - (long)&v, (int)sizeof(v.m1));
		printf(" m2@%ld,%d", (long)&v.m2 - (long)&v, (int)sizeof(v.m2));
		printf(" m3@%ld,%d", (long)&v.m3 - (long)&v, (int)sizeof(v.m3));
		printf(" m4@%ld,%d", (long)&v.m4 - (long)&v, (int)sizeof(v.m4));
		printf(" %d\n", (int)sizeof(w));
	}
	{
		struct t8 v, w[2];
		printf("struct t8: %d", (int)sizeof(struct t8));
		printf(" m0@%ld,%d", (long)&v.m0[0] - (long)&v, (int)sizeof(v.m0));
		printf(" m1@%ld,%d", (long)&v.m1 - (long)&v, (int)sizeof(v.m1));
		printf(" %d\n", (int)sizeof(w));
	}
	{
		struct t9 v, w[2];
		printf("struct t9: %d", (int)sizeof(struct t9));
		printf(" m0@%ld,%d", (long)&v.m0[0] - (long)&v, (int)sizeof(v.m0));
		printf(" m1@%ld,%d", (long)&v.m1 - (long)&v, (int)sizeof(v.m1));
		printf(" m1p@%ld,%d", (long)&v.m1p - (long)&v, (int)sizeof(v.m1p));
		printf(" m1a@%ld,%d", (long)&v.m1a[0] - (long)&v, (int)sizeof(v.m1a));
		printf(" m2@%ld,%d", (long)&v.m2 - (long)&v, (int)sizeof(v.m2));
		printf(" m3@%ld,%d", (long)&v.m3 - (long)&v, (int)sizeof(v.m3));
		printf(" %d\n", (int)sizeof(w));
	}
	{
		union t10 v, w[2];
		printf("union t10: %d", (int)sizeof(union t10));
		printf(" m0@%ld,%d", (long)&v.m0 - (long)&v, (int)sizeof(v.m0));
		printf(" m1@%ld,%d", (long)&v.m1 - (long)&v, (int)sizeof(v.m1));
		printf(" m2@%ld,%d", (long)&v.m2 - (long)&v, (int)sizeof(v.m2));
		printf(" %d\n", (int)sizeof(w));
	}
	{
		struct t11 v, w[2];
		printf("struct t11: %d", (int)sizeof(struct t11));
		printf(" m0@%ld,%d", (long)&v.m0 - (long)&v, (int)sizeof(v.m0));
		printf(" m1@%ld,%d", (long)&v.m1 - (long)&v, (int)sizeof(v.m1));
		printf(" m2@%ld,%d", (long)&v.m2 - (long)&v, (int)sizeof(v.m2));
		printf(" %d\n", (int)sizeof(w));
	}
	return 0;
}

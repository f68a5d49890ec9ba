#include <stdio.h>
#include <string.h>
typedef short ROW[3];
typedef long WORD;
enum e { EA, EB };
struct t0 { char c; };
union t1 { short s; char c[5]; };
struct t2 {
	WORD m0;
	ROW m1;
	unsigned long long m2;
	ROW m3;
	int * m4[7];
};
struct t3 {
	int * m0[4];
};
union t4 {
	struct t2 m0;
};
union t5 {
	unsigned short m0[3];
	char m1;
};
union t6 {
	long m0;
	struct t3 m1;
	union t4 m2;
	unsigned long long m3;
	int (*m4)(int);
};
union t7 {
	long double m0;
	unsigned long long m1;
};
struct t8 {
	float m0;
};
union t9 {
	char * m0;
};
struct t10 {
	struct t8 m0;
};
struct t11 {
	WORD m0;
	union t4 m1;
	unsigned long long m2;
	WORD m3;
	union t4 m4[7];
};
int main()
{
	{
		struct t2 v, w[2];
		printf("struct t2: %d", (int)sizeof(struct t2));
		printf(" m0@%ld,%d", (long)&v.m0 - (long)&v, (int)sizeof(v.m0));
		printf(" m1@%ld,%d", (long)&v.m1[0] - (long)&v, (int)sizeof(v.m1));
		printf(" m2@%ld,%d", (long)&v.m2 - (long)&v, (int)sizeof(v.m2));
		printf(" m3@%ld,%d", (long)&v.m3[0] - (long)&v, (int)sizeof(v.m3));
		printf(" m4@%ld,%d", (long)&v.m4[0] - (long)&v, (int)sizeof(v.m4));
		printf(" %d\n", (int)sizeof(w));
	}
	{
		struct t3 v, w[2];
		printf("struct t3: %d", (int)sizeof(struct t3));
		printf(" m0@%ld,%d", (long)&v.m0[0] - (long)&v, (int)sizeof(v.m0));
		printf(" %d\n", (int)sizeof(w));
	}
	{
		union t4 v, w[2];
		printf("union t4: %d", (int)sizeof(union t4));
		printf(" m0@%ld,%d", (long)&v.m0 - (long)&v, (int)sizeof(v.m0));
		printf(" %d\n", (int)sizeof(w));
	}
	{
		union t5 v, w[2];
		printf("union t5: %d", (int)sizeof(union t5));
		printf(" m0@%ld,%d", (long)&v.m0[0] - (long)&v, (int)sizeof(v.m0));
		printf(" m1@%ld,%d", (long)&v.m1 - (long)&v, (int)sizeof(v.m1));
		printf(" %d\n", (int)sizeof(w));
	}
	{
		union t6 v, w[2];
		printf("union t6: %d", (int)sizeof(union t6));
		printf(" m0@%ld,%d", (long)&v.m0 - (long)&v, (int)sizeof(v.m0));
		printf(" m1@%ld,%d", (long)&v.m1 - (long)&v, (int)sizeof(v.m1));
		printf(" m2@%ld,%d", (long)&v.m2 - (long)&v, (int)sizeof(v.m2));
		printf(" m3@%ld,%d", (long)&v.m3 - (long)&v, (int)sizeof(v.m3));
		printf(" m4@%ld,%d", (long)&v.m4 - (long)&v, (int)sizeof(v.m4));
		printf(" %d\n", (int)sizeof(w));
	}
	{
		union t7 v, w[2];
		printf("union t7: %d", (int)sizeof(union t7));
		printf(" m0@%ld,%d", (long)&v.m0 - (long)&v, (int)sizeof(v.m0));
		printf(" m1@%ld,%d", (long)&v.m1 - (long)&v, (int)sizeof(v.m1));
		printf(" %d\n", (int)sizeof(w));
	}
	{
		struct t8 v, w[2];
		printf("struct t8: %d", (int)sizeof(struct t8));
		printf(" m0@%ld,%d", (long)&v.m0 - (long)&v, (int)sizeof(v.m0));
		printf(" %d\n", (int)sizeof(w));
	}
	{
		union t9 v, w[2];
		printf("union t9: %d", (int)sizeof(union t9));
		printf(" m0@%ld,%d", (long)&v.m0 - (long)&v, (int)sizeof(v.m0));
		printf(" %d\n", (int)sizeof(w));
	}
	{
		struct t10 v, w[2];
		printf("struct t10: %d", (int)sizeof(struct t10));
		printf(" m0@%ld,%d", (long)&v.m0 - (long)&v, (int)sizeof(v.m0));
		printf(" %d\n", (int)sizeof(w));
	}
	{
		struct t11 v, w[2];
		printf("struct t11: %d", (int)sizeof(struct t11));
		printf(" m0@%ld,%d", (long)&v.m0 - (long)&v, (int)sizeof(v.m0));
		printf(" m1@%ld,%d", (long)&v.m1 - (long)&v, (int)sizeof(v.m1));
		printf(" m2@%ld,%d", (long)&v.m2 - (long)&v, (int)sizeof(v.m2));
		printf(" m3@%ld,%d", (long)&v.m3 - (long)&v, (int)sizeof(v.m3));
		printf(" m4@%ld,%d", (long)&v.m4[0] - (long)&v, (int)sizeof(v.m4));
		printf(" %d\n", (int)sizeof(w));
	}
	return 0;
}

#include <stdio.h>
#include <string.h>
typedef short ROW[3];
typedef long WORD;
enum e { EA, EB };
struct t0 { char c; };
union t1 { short s; char c[5]; };
struct t2 {
	struct t0 * m0;
};
struct t3 {
	WORD m0;
	enum e m1;
	unsigned short m2;
	struct t2 m3;
	union t1 m4;
	struct t2 m5;
};
union t4 {
	struct t0 m0[5];
	char m1;
	enum e m2;
};
struct t5 {
	int (*m0)(int);
	int (*m1)(int);
	float m2;
	short m3;
};
struct t6 {
	unsigned int m0;
	float m1;
};
union t7 {
	char m0, *m0p, m0a[3];
	union t1 m1;
	char m2, *m2p, m2a[3];
};
struct t8 {
	struct t5 m0;
	ROW m1;
	struct t0 * m2;
	char m3, *m3p, m3a[3];
};
struct t9 {
	union t7 m0;
	struct t3 m1;
	union t1 m2[5];
	char * m3[6];
};
struct t10 {
	char * m0;
	int (*m1)(int);
	union t7 m2;
	struct t5 m3;
};
union t11 {
	enum e m0;
	union t7 m1;
};
int main()
{
	{
		struct t2 v, w[2];
		printf("struct t2: %d", (int)sizeof(struct t2));
		printf(" m0@%ld,%d", (long)&v.m0 - (long)&v, (int)sizeof(v.m0));
		printf(" %d\n", (int)sizeof(w));
	}
	{
		struct t3 v, w[2];
		printf("struct t3: %d", (int)sizeof(struct t3));
		printf(" m0@%ld,%d", (long)&v.m0 - (long)&v, (int)sizeof(v.m0));
		printf(" m1@%ld,%d", (long)&v.m1 - (long)&v, (int)sizeof(v.m1));
		printf(" m2@%ld,%d", (long)&v.m2 - (long)&v, (int)sizeof(v.m2));
		printf(" m3@%ld,%d", (long)&v.m3 - (long)&v, (int)sizeof(v.m3));
		printf(" m4@%ld,%d", (long)&v.m4 - (long)&v, (int)sizeof(v.m4));
		printf(" m5@%ld,%d", (long)&v.m5 - (long)&v, (int)sizeof(v.m5));
		printf(" %d\n", (int)sizeof(w));
	}
	{
		union t4 v, w[2];
		printf("union t4: %d", (int)sizeof(union t4));
		printf(" m0@%ld,%d", (long)&v.m0[0] - (long)&v, (int)sizeof(v.m0));
		printf(" m1@%ld,%d", (long)&v.m1 - (long)&v, (int)sizeof(v.m1));
		printf(" m2@%ld,%d", (long)&v.m2 - (long)&v, (int)sizeof(v.m2));
		printf(" %d\n", (int)sizeof(w));
	}
	{
		struct t5 v, w[2];
		printf("struct t5: %d", (int)sizeof(struct t5));
		printf(" m0@%ld,%d", (long)&v.m0 - (long)&v, (int)sizeof(v.m0));
		printf(" m1@%ld,%d", (long)&v.m1 - (long)&v, (int)sizeof(v.m1));
		printf(" m2@%ld,%d", (long)&v.m2 - (long)&v, (int)sizeof(v.m2));
		printf(" m3@%ld,%d", (long)&v.m3 - (long)&v, (int)sizeof(v.m3));
		printf(" %d\n", (int)sizeof(w));
	}
	{
		struct t6 v, w[2];
		printf("struct t6: %d", (int)sizeof(struct t6));
		printf(" m0@%ld,%d", (long)&v.m0 - (long)&v, (int)sizeof(v.m0));
		printf(" m1@%ld,%d", (long)&v.m1 - (long)&v, (int)sizeof(v.m1));
		printf(" %d\n", (int)sizeof(w));
	}
	{
		union t7 v, w[2];
		printf("union t7: %d", (int)sizeof(union t7));
		printf(" m0@%ld,%d", (long)&v.m0 - (long)&v, (int)sizeof(v.m0));
		printf(" m0p@%ld,%d", (long)&v.m0p - (long)&v, (int)sizeof(v.m0p));
		printf(" m0a@%ld,%d", (long)&v.m0a[0] - (long)&v, (int)sizeof(v.m0a));
		printf(" m1@%ld,%d", (long)&v.m1 - (long)&v, (int)sizeof(v.m1));
		printf(" m2@%ld,%d", (long)&v.m2 - (long)&v, (int)sizeof(v.m2));
		printf(" m2p@%ld,%d", (long)&v.m2p - (long)&v, (int)sizeof(v.m2p));
		printf(" m2a@%ld,%d", (long)&v.m2a[0] - (long)&v, (int)sizeof(v.m2a));
		printf(" %d\n", (int)sizeof(w));
	}
	{
		struct t8 v, w[2];
		printf("struct t8: %d", (int)sizeof(struct t8));
		printf(" m0@%ld,%d", (long)&v.m0 - (long)&v, (int)sizeof(v.m0));
		printf(" m1@%ld,%d", (long)&v.m1[0] - (long)&v, (int)sizeof(v.m1));
		printf(" m2@%ld,%d", (long)&v.m2 - (long)&v, (int)sizeof(v.m2));
		printf(" m3@%ld,%d", (long)&v.m3 - (long)&v, (int)sizeof(v.m3));
		printf(" m3p@%ld,%d", (long)&v.m3p - (long)&v, (int)sizeof(v.m3p));
		printf(" m3a@%ld,%d", (long)&v.m3a[0] - (long)&v, (int)sizeof(v.m3a));
		printf(" %d\n", (int)sizeof(w));
	}
	{
		struct t9 v, w[2];
		printf("struct t9: %d", (int)sizeof(struct t9));
		printf(" m0@%ld,%d", (long)&v.m0 - (long)&v, (int)sizeof(v.m0));
		printf(" m1@%ld,%d", (long)&v.m1 - (long)&v, (int)sizeof(v.m1));
		printf(" m2@%ld,%d", (long)&v.m2[0] - (long)&v, (int)sizeof(v.m2));
		printf(" m3@%ld,%d", (long)&v.m3[0] - (long)&v, (int)sizeof(v.m3));
		printf(" %d\n", (int)sizeof(w));
	}
	{
		struct t10 v, w[2];
		printf("struct t10: %d", (int)sizeof(struct t10));
		printf(" m0@%ld,%d", (long)&v.m0 - (long)&v, (int)sizeof(v.m0));
		printf(" m1@%ld,%d", (long)&v.m1 - (long)&v, (int)sizeof(v.m1));
		printf(" m2@%ld,%d", (long)&v.m2 - (long)&v, (int)sizeof(v.m2));
		printf(" m3@%ld,%d", (long)&v.m3 - (long)&v, (int)sizeof(v.m3));
		printf(" %d\n", (int)sizeof(w));
	}
	{
		union t11 v, w[2];
		printf("union t11: %d", (int)sizeof(union t11));
		printf(" m0@%ld,%d", (long)&v.m0 - (long)&v, (int)sizeof(v.m0));
		printf(" m1@%ld,%d", (long)&v.m1 - (long)&v, (int)sizeof(v.m1));
		printf(" %d\n", (int)sizeof(w));
	}
	return 0;
}

#include <stdio.h>
#include <string.h>
typedef short ROW[3];
typedef long WORD;
enum e { EA, EB };
struct t0 { char c; };
union t1 { short s; char c[5]; };
struct t2 {
	char m0, *m0p, m0a[3];
	ROW m1;
	char * m2;
};
struct t3 {
	unsigned long long m0;
	float m1;
	unsigned int m2;
};
struct t4 {
	char m0;
	struct t3 m1;
	struct t0 m2[6];
	unsigned char m3;
	char m4[7];
	struct t0 m5;
};
struct t5 {
	struct t4 m0;
};
union t6 {
	char m0[5];
	char m1[3];
	int (*m2)(int);
	enum e m3;
};
struct t7 {
	unsigned char m0[2];
	char * m1;
	unsigned int m2;
	struct t5 m3[3];
};
struct t8 {
	char m0, *m0p, m0a[3];
	int (*m1)(int);
	union t6 m2[1];
	int m3;
};
union t9 {
	unsigned long long m0;
};
struct t10 {
	WORD m0;
	int (*m1)(int);
};
struct t11 {
	char m0;
	struct t8 m1;
	char m2, *m2p, m2a[3];
	struct t8 m3[3];
	struct t3 m4;
	char m5, *m5p, m5a[3];
};
int main()
{
	{
		struct t2 v, w[2];
		printf("struct t2: %d", (int)sizeof(struct t2));
		printf(" m0@%ld,%d", (long)&v.m0 - (long)&v, (int)sizeof(v.m0));
		printf(" m0p@%ld,%d", (long)&v.m0p - (long)&v, (int)sizeof(v.m0p));
		printf(" m0a@%ld,%d", (long)&v.m0a[0] - (long)&v, (int)sizeof(v.m0a));
		printf(" m1@%ld,%d", (long)&v.m1[0] - (long)&v, (int)sizeof(v.m1));
		printf(" m2@%ld,%d", (long)&v.m2 - (long)&v, (int)sizeof(v.m2));
		printf(" %d\n", (int)sizeof(w));
	}
	{
		struct t3 v, w[2];
		printf("struct t3: %d", (int)sizeof(struct t3));
		printf(" m0@%ld,%d", (long)&v.m0 - (long)&v, (int)sizeof(v.m0));
		printf(" m1@%ld,%d", (long)&v.m1 - (long)&v, (int)sizeof(v.m1));
		printf(" m2@%ld,%d", (long)&v.m2 - (long)&v, (int)sizeof(v.m2));
		printf(" %d\n", (int)sizeof(w));
	}
	{
		struct t4 v, w[2];
		printf("struct t4: %d", (int)sizeof(struct t4));
		printf(" m0@%ld,%d", (long)&v.m0 - (long)&v, (int)sizeof(v.m0));
		printf(" m1@%ld,%d", (long)&v.m1 - (long)&v, (int)sizeof(v.m1));
		printf(" m2@%ld,%d", (long)&v.m2[0] - (long)&v, (int)sizeof(v.m2));
		printf(" m3@%ld,%d", (long)&v.m3 - (long)&v, (int)sizeof(v.m3));
		printf(" m4@%ld,%d", (long)&v.m4[0] - (long)&v, (int)sizeof(v.m4));
		printf(" m5@%ld,%d", (long)&v.m5 - (long)&v, (int)sizeof(v.m5));
		printf(" %d\n", (int)sizeof(w));
	}
	{
		struct t5 v, w[2];
		printf("struct t5: %d", (int)sizeof(struct t5));
		printf(" m0@%ld,%d", (long)&v.m0 - (long)&v, (int)sizeof(v.m0));
		printf(" %d\n", (int)sizeof(w));
	}
	{
		union t6 v, w[2];
		printf("union t6: %d", (int)sizeof(union t6));
		printf(" m0@%ld,%d", (long)&v.m0[0] - (long)&v, (int)sizeof(v.m0));
		printf(" m1@%ld,%d", (long)&v.m1[0] - (long)&v, (int)sizeof(v.m1));
		printf(" m2@%ld,%d", (long)&v.m2 - (long)&v, (int)sizeof(v.m2));
		printf(" m3@%ld,%d", (long)&v.m3 - (long)&v, (int)sizeof(v.m3));
		printf(" %d\n", (int)sizeof(w));
	}
	{
		struct t7 v, w[2];
		printf("struct t7: %d", (int)sizeof(struct t7));
		printf(" m0@%ld,%d", (long)&v.m0[0] - (long)&v, (int)sizeof(v.m0));
		printf(" m1@%ld,%d", (long)&v.m1 - (long)&v, (int)sizeof(v.m1));
		printf(" m2@%ld,%d", (long)&v.m2 - (long)&v, (int)sizeof(v.m2));
		printf(" m3@%ld,%d", (long)&v.m3[0] - (long)&v, (int)sizeof(v.m3));
		printf(" %d\n", (int)sizeof(w));
	}
	{
		struct t8 v, w[2];
		printf("struct t8: %d", (int)sizeof(struct t8));
		printf(" m0@%ld,%d", (long)&v.m0 - (long)&v, (int)sizeof(v.m0));
		printf(" m0p@%ld,%d", (long)&v.m0p - (long)&v, (int)sizeof(v.m0p));
		printf(" m0a@%ld,%d", (long)&v.m0a[0] - (long)&v, (int)sizeof(v.m0a));
		printf(" m1@%ld,%d", (long)&v.m1 - (long)&v, (int)sizeof(v.m1));
		printf(" m2@%ld,%d", (long)&v.m2[0] - (long)&v, (int)sizeof(v.m2));
		printf(" m3@%ld,%d", (long)&v.m3 - (long)&v, (int)sizeof(v.m3));
		printf(" %d\n", (int)sizeof(w));
	}
	{
		union t9 v, w[2];
		printf("union t9: %d", (int)sizeof(union t9));
		printf(" m0@%ld,%d", (long)&v.m0 - (long)&v, (int)sizeof(v.m0));
		printf(" %d\n", (int)sizeof(w));
	}
	{
		struct t10 v, w[2];
		printf("struct t10: %d", (int)sizeof(struct t10));
		printf(" m0@%ld,%d", (long)&v.m0 - (long)&v, (int)sizeof(v.m0));
		printf(" m1@%ld,%d", (long)&v.m1 - (long)&v, (int)sizeof(v.m1));
		printf(" %d\n", (int)sizeof(w));
	}
	{
		struct t11 v, w[2];
		printf("struct t11: %d", (int)sizeof(struct t11));
		printf(" m0@%ld,%d", (long)&v.m0 - (long)&v, (int)sizeof(v.m0));
		printf(" m1@%ld,%d", (long)&v.m1 - (long)&v, (int)sizeof(v.m1));
		printf(" m2@%ld,%d", (long)&v.m2 - (long)&v, (int)sizeof(v.m2));
		printf(" m2p@%ld,%d", (long)&v.m2p - (long)&v, (int)sizeof(v.m2p));
		printf(" m2a@%ld,%d", (long)&v.m2a[0] - (long)&v, (int)sizeof(v.m2a));
		printf(" m3@%ld,%d", (long)&v.m3[0] - (long)&v, (int)sizeof(v.m3));
		printf(" m4@%ld,%d", (long)&v.m4 - (long)&v, (int)sizeof(v.m4));
		printf(" m5@%ld,%d", (long)&v.m5 - (long)&v, (int)sizeof(v.m5));
		printf(" m5p@%ld,%d", (long)&v.m5p - (long)&v, (int)sizeof(v.m5p));
		printf(" m5a@%ld,%d", (long)&v.m5a[0] - (long)&v, (int)sizeof(v.m5a));
		printf(" %d\n", (int)sizeof(w));
	}
	return 0;
}

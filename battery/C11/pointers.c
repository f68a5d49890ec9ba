int printf(const char *f, ...);
struct pt { char c; int x; long y; short z; };
struct box { struct pt a; struct pt b[3]; int *p; };
int ga[5];
char gs[9];
int sum(int *p, int n) { int s; s = 0; while (n--) s += *p++; return s; }
void set(int *p, int v) { *p = v; }
void swap(int *a, int *b) { int t; t = *a; *a = *b; *b = t; }
int main()
{
	int a[6];
	int *p;
	int *q;
	int **pp;
	char s[4];
	short sh[4];
	long l[3];
	unsigned char uc[3];
	struct pt v[3];
	struct pt *vp;
	struct box bx;
	int i;
	int j;
	long d;
	for (i = 0; i < 6; i++)
		a[i] = i * i - 3;
	p = a;
	q = &a[4];
	pp = &p;
	printf("%d %d %d\n", *p, *q, **pp);
	*(p + 2) = 77;
	*(2 + p) = *(p + 2) + 1;
	p[3] = 5;
	q[-1] = q[-1] + 1;
	*q = -9;
	(*pp)++;
	**pp = 1000;
	for (i = 0; i < 6; i++)
		printf("%d ", a[i]);
	printf("%d\n", sum(a, 6));
	set(&a[5], 3);
	swap(&a[0], &a[5]);
	swap(a + 1, a + 2);
	for (i = 0; i < 6; i++)
		printf("%d ", a[i]);
	p = a;
	p = p + 3;
	printf("%d\n", *p);
	p = p - 2;
	printf("%d\n", *p);
	p += 4;
	printf("%d\n", *p);
	p -= 1;
	printf("%d\n", *p);
	for (i = 0; i < 4; i++) { s[i] = 120 + i * 5; sh[i] = 32760 + i * 5; }
	for (i = 0; i < 4; i++) { j = s[i]; printf("%d ", j); j = sh[i]; printf("%d\n", j); }
	for (i = 0; i < 3; i++) { l[i] = 4294967296 * (i + 1); uc[i] = 254 + i; }
	for (i = 0; i < 3; i++) { d = l[i]; j = uc[i]; printf("%ld %d\n", d, j); }
	for (i = 0; i < 3; i++) { v[i].c = i; v[i].x = i * 5; v[i].y = -i; v[i].z = i + 300; }
	vp = v;
	vp++;
	j = vp->x; printf("%d ", j);
	vp = vp + 1;
	j = vp->z; printf("%d ", j);
	vp--;
	vp->x = 99;
	(*vp).z = 12;
	j = v[1].x; i = v[1].z; printf("%d %d\n", j, i);
	bx.p = &bx.b[1].x;
	bx.b[0].x = 1; bx.b[1].x = 2; bx.b[2].x = 3; bx.a.x = 4;
	*bx.p = 22;
	j = bx.b[1].x; printf("%d ", j);
	j = bx.b[0].x + bx.b[2].x + bx.a.x; printf("%d\n", j);
	for (i = 0; i < 5; i++) ga[i] = 5 - i;
	p = &ga[0];
	printf("%d %d %d\n", p[0], *(p + 4), sum(ga, 5));
	gs[0] = 'a'; gs[1] = 'b'; gs[2] = 0;
	printf("%s\n", gs);
	i = 1;
	a[i++] = 50;
	printf("%d %d\n", i, a[1]);
	a[2] = 7; i = 2;
	j = a[i--];
	printf("%d %d\n", i, j);
	p = &a[1]; q = &a[1];
	j = p == q; printf("%d ", j);
	j = p != q; printf("%d ", j);
	p++; j = p > q; printf("%d ", j);
	j = p <= q; printf("%d\n", j);
	p = 0;
	if (p) j = 1; else j = 2;
	if (!q) j += 10; else j += 20;
	printf("%d\n", j);
	return 0;
}

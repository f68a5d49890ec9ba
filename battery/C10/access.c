#include <stdio.h>
#include <string.h>
struct in { char c; int i; };
union un { long l; unsigned char b[8]; struct in n; short s; };
struct out {
	char a;
	struct in n;
	short s[3];
	union un u;
	struct in arr[3];
	struct out *self;
	unsigned char last;
	int (*fn)(int);
	float f;
	double d;
	unsigned int bf : 3;
	struct { int x; struct { char y; long z; } deep; } anon;
};
int twice(int v) { return v * 2; }
void dump(void *p, int n)
{
	unsigned char *b = p;
	int i;
	for (i = 0; i < n; i++)
		printf("%d ", b[i]);
	printf("\n");
}
int read(struct out *p) { return p->n.i + p->s[2] + p->arr[1].i; }
int main()
{
	struct out v, w[2], *p;
	union un u;
	int i;
	struct { char c; short s; char d; int i; char e; } pad;
	memset(&v, 255, sizeof(v));
	v.a = 1;
	v.n.c = 2;
	v.n.i = 3;
	v.s[0] = 4; v.s[1] = 5; v.s[2] = 6;
	v.u.l = 7;
	for (i = 0; i < 3; i++) {
		v.arr[i].c = 10 + i;
		v.arr[i].i = 20 + i;
	}
	v.self = 0;
	v.last = 8;
	v.anon.x = 9;
	v.anon.deep.y = 11;
	v.anon.deep.z = 12;
	dump(&v, 76);
	dump(&v.anon, sizeof(v.anon));
	printf("%d %d %d %d\n", v.a, v.n.c, v.n.i, v.s[0]);
	printf("%d %d\n", v.arr[2].c, v.arr[1].i);
	v.self = &v;
	v.fn = &twice;
	v.f = 1.5;
	v.d = -2.25;
	p = v.self;
	p->self->n.i = 1000;
	printf("%d %d %f %f\n", v.n.i, read(p), v.f, v.d);
	printf("%d\n", v.fn(21));
	printf("%d %d %ld\n", p->anon.x, p->anon.deep.y, p->self->self->anon.deep.z);
	memset(&pad, 255, sizeof(pad));
	pad.c = 0; pad.s = 0; pad.d = 0; pad.i = 0; pad.e = 0;
	dump(&pad, sizeof(pad));
	u.l = 72623859790382856;
	dump(&u, sizeof(u));
	printf("%d %d %d\n", u.b[0], u.b[7], u.s);
	u.b[1] = 255;
	u.n.i = -1;
	printf("%ld %d\n", u.l, u.n.c);
	memset(w, 0, sizeof(w));
	for (i = 0; i < 2; i++) {
		w[i].a = i + 1;
		w[i].last = i + 50;
		w[i].self = &w[1 - i];
		w[i].arr[i].i = i + 70;
	}
	p = w;
	p++;
	printf("%d %d %d\n", p->a, p->last, p->self->last);
	p = &w[0];
	printf("%d %d %d %d\n", p->arr[0].i, p->arr[1].i, (p + 1)->arr[0].i, (p + 1)->arr[1].i);
	printf("%ld %ld\n", (long)&w[1] - (long)&w[0], (long)&p->arr[2].i - (long)p);
	p->arr[2].i++;
	p->arr[2].i += 4;
	--p->s[1];
	printf("%d %d\n", w[0].arr[2].i, w[0].s[1]);
	return 0;
}

#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <search.h>
int calls;
void qsort_r(void *base, unsigned long n, unsigned long size, int (*cmp)(const void *, const void *, void *), void *arg);
int depth;
typedef const void *key;
int up(const void *a, const void *b) { int *x = a; int *y = b; calls++; if (*x < *y) return -1; if (*x > *y) return 1; return 0; }
int down(key a, key b) { int *x = a; int *y = b; calls++; return *y - *x; }
int bychar(const void *a, const void *b) { unsigned char *x = a; unsigned char *y = b; return *x - *y; }
int with(const void *a, const void *b, void *c) { int *x = a; int *y = b; int *s = c; return (*x - *y) * *s; }
int nested(const void *a, const void *b)
{
	int *x = a; int *y = b; int r; int t[3];
	t[0] = *x; t[1] = *y; t[2] = 1000;
	qsort(t, 3, sizeof(int), &up);
	if (*x == *y) return 0;
	if (t[0] == *x) return -1;
	return 1;
}
void show(int *a, int n) { int i; for (i = 0; i < n; i++) printf("%d ", a[i]); printf("\n"); }
void visit(const void *n, int which, int level) { int **p = n; int *q = *p; if (which == 1 || which == 3) printf("%d:%d ", *q, level); }
int main()
{
	int a[9]; int i; int k; int *r; int sign; char w[12]; void *root; unsigned long len;
	for (i = 0; i < 9; i++) a[i] = (i * 5) % 7 - 3;
	qsort(a, 9, sizeof(int), &up); show(a, 9);
	qsort(a, 9, sizeof(int), &down); show(a, 9);
	qsort(a, 9, sizeof(int), &nested); show(a, 9);
	printf("%d\n", calls > 20);
	for (i = 0; i < 3; i++) {
		k = a[i * 3 + 1];
		r = bsearch(&k, a, 9, sizeof(int), &up);
		printf("%d ", *r);
	}
	k = 99; r = bsearch(&k, a, 9, sizeof(int), &up);
	printf("%d\n", r == 0);
	sign = -1; qsort_r(a, 9, sizeof(int), &with, &sign); show(a, 9);
	sign = 1; qsort_r(a, 9, sizeof(int), &with, &sign); show(a, 9);
	strcpy(w, "callbacks"); qsort(w, 9, 1, &bychar); printf("%s\n", w);
	len = 9; k = 4; r = lfind(&k, a, &len, sizeof(int), &down); printf("%d\n", r == 0);
	k = 3; r = lfind(&k, a, &len, sizeof(int), &down); printf("%d\n", *r);
	root = 0;
	for (i = 0; i < 5; i++) tsearch(&a[i * 2], &root, &up);
	twalk(root, &visit); printf("\n");
	return 0;
}

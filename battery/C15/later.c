#include <stdio.h>
#include <stdlib.h>
int count;
int inc(int k) { count = count + k; return count; }
int twice(int k) { return k * 2; }
int thrice(int k) { return k * 3; }
int (*table[3])(int);
int (*last)(int);
int (*first)(int);
int cmp(const void *a, const void *b) { int *x = a; int *y = b; return *x - *y; }
int (*keep)(const void *, const void *);
void set() { first = &inc; last = &twice; keep = &cmp; }
int sum(int n) { int s; int i; int b[20]; s = 0; for (i = 0; i < n; i++) { b[i % 20] = i; s = s + b[i % 20]; } return s; }
void bye(void) { printf("bye %d\n", count); }
void bye2(void) { count = count + 1; printf("bye2\n"); }
int main()
{
	int i; int k; int a[5]; int (*f)(int);
	set();
	atexit(&bye); atexit(&bye2);
	for (i = 0; i < 30; i++) {
		k = first(i);
		sum(200);
		if (i % 10 == 9) printf("%d\n", k);
	}
	k = last(21); printf("%d\n", k);
	for (i = 0; i < 50; i++) {
		f = &thrice;
		if (i == 3) last = f;
		k = f(i);
	}
	printf("%d\n", k);
	k = last(5); printf("%d\n", k);
	for (i = 0; i < 5; i++) a[i] = 7 * (5 - i) % 11;
	qsort(a, 5, sizeof(int), keep);
	for (i = 0; i < 5; i++) printf("%d ", a[i]);
	printf("\n");
	return 0;
}

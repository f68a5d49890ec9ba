int printf(const char *f, ...);
int main()
{
	long long a[8];
	long long *p;
	long long *q;
	int i;
	long w;
	for (i = 0; i < 8; i++)
		a[i] = i * 3 + 1;
	p = a;
	q = p++;
	w = *q;
	printf("p++ %ld\n", w);
	w = *p;
	printf("p %ld\n", w);
	q = ++p;
	w = *q;
	printf("++p %ld\n", w);
	w = *p;
	printf("p %ld\n", w);
	q = p++;
	w = *q;
	printf("p++ %ld\n", w);
	w = *p;
	printf("p %ld\n", w);
	q = p--;
	w = *q;
	printf("p-- %ld\n", w);
	w = *p;
	printf("p %ld\n", w);
	q = --p;
	w = *q;
	printf("--p %ld\n", w);
	w = *p;
	printf("p %ld\n", w);
	q = ++p;
	w = *q;
	printf("++p %ld\n", w);
	w = *p;
	printf("p %ld\n", w);
	return 0;
}

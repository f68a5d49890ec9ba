int printf(const char *f, ...);
int main()
{
	long double f;
	double w;
	long l;
	int i;
	char c;
	f = 0;
	w = f;
	printf("%f\n", w);
	f = 1;
	w = f;
	printf("%f\n", w);
	f = -1;
	w = f;
	printf("%f\n", w);
	f = 100;
	w = f;
	printf("%f\n", w);
	f = 1000;
	w = f;
	printf("%f\n", w);
	f = 1.5;
	l = f;
	i = f;
	c = f;
	printf("%ld %d\n", l, i);
	l = c;
	printf("%ld\n", l);
	f = -1.5;
	l = f;
	i = f;
	c = f;
	printf("%ld %d\n", l, i);
	l = c;
	printf("%ld\n", l);
	f = 0.25;
	l = f;
	i = f;
	c = f;
	printf("%ld %d\n", l, i);
	l = c;
	printf("%ld\n", l);
	f = 99.75;
	l = f;
	i = f;
	c = f;
	printf("%ld %d\n", l, i);
	l = c;
	printf("%ld\n", l);
	return 0;
}

int printf(const char *f, ...);
int main()
{
	double w;
	int i;
	long l;
	long double f;
	i = 7;
	w = (long double)i;
	printf("%f\n", w);
	i = -7;
	w = (long double)i;
	printf("%f\n", w);
	i = 0;
	w = (long double)i;
	printf("%f\n", w);
	f = 2.75;
	l = (int)f;
	printf("%ld\n", l);
	l = (char)f;
	printf("%ld\n", l);
	w = (float)f;
	printf("%f\n", w);
	f = -2.75;
	l = (int)f;
	printf("%ld\n", l);
	l = (char)f;
	printf("%ld\n", l);
	w = (float)f;
	printf("%f\n", w);
	return 0;
}

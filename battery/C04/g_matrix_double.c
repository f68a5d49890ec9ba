int printf(const char *f, ...);
int main()
{
	double f;
	long l;
	unsigned long u;
	double w;
	f = 2.75;
	l = (char)f;
	printf("char %ld\n", l);
	l = (short)f;
	printf("short %ld\n", l);
	l = (int)f;
	printf("int %ld\n", l);
	l = (long)f;
	printf("long %ld\n", l);
	l = (long long)f;
	printf("long long %ld\n", l);
	u = (unsigned char)f;
	printf("unsigned char %lu\n", u);
	u = (unsigned short)f;
	printf("unsigned short %lu\n", u);
	u = (unsigned int)f;
	printf("unsigned int %lu\n", u);
	u = (unsigned long)f;
	printf("unsigned long %lu\n", u);
	u = (unsigned long long)f;
	printf("unsigned long long %lu\n", u);
	w = (float)f;
	printf("float %f\n", w);
	w = (double)f;
	printf("double %f\n", w);
	w = (long double)f;
	printf("long double %f\n", w);
	f = -2.75;
	l = (char)f;
	printf("char %ld\n", l);
	l = (short)f;
	printf("short %ld\n", l);
	l = (int)f;
	printf("int %ld\n", l);
	l = (long)f;
	printf("long %ld\n", l);
	l = (long long)f;
	printf("long long %ld\n", l);
	w = (float)f;
	printf("float %f\n", w);
	w = (double)f;
	printf("double %f\n", w);
	w = (long double)f;
	printf("long double %f\n", w);
	f = 100.5;
	l = (char)f;
	printf("char %ld\n", l);
	l = (short)f;
	printf("short %ld\n", l);
	l = (int)f;
	printf("int %ld\n", l);
	l = (long)f;
	printf("long %ld\n", l);
	l = (long long)f;
	printf("long long %ld\n", l);
	u = (unsigned char)f;
	printf("unsigned char %lu\n", u);
	u = (unsigned short)f;
	printf("unsigned short %lu\n", u);
	u = (unsigned int)f;
	printf("unsigned int %lu\n", u);
	u = (unsigned long)f;
	printf("unsigned long %lu\n", u);
	u = (unsigned long long)f;
	printf("unsigned long long %lu\n", u);
	w = (float)f;
	printf("float %f\n", w);
	w = (double)f;
	printf("double %f\n", w);
	w = (long double)f;
	printf("long double %f\n", w);
	f = -0.5;
	l = (char)f;
	printf("char %ld\n", l);
	l = (short)f;
	printf("short %ld\n", l);
	l = (int)f;
	printf("int %ld\n", l);
	l = (long)f;
	printf("long %ld\n", l);
	l = (long long)f;
	printf("long long %ld\n", l);
	u = (unsigned char)f;
	printf("unsigned char %lu\n", u);
	u = (unsigned short)f;
	printf("unsigned short %lu\n", u);
	u = (unsigned int)f;
	printf("unsigned int %lu\n", u);
	u = (unsigned long)f;
	printf("unsigned long %lu\n", u);
	u = (unsigned long long)f;
	printf("unsigned long long %lu\n", u);
	w = (float)f;
	printf("float %f\n", w);
	w = (double)f;
	printf("double %f\n", w);
	w = (long double)f;
	printf("long double %f\n", w);
	f = 0.0;
	l = (char)f;
	printf("char %ld\n", l);
	l = (short)f;
	printf("short %ld\n", l);
	l = (int)f;
	printf("int %ld\n", l);
	l = (long)f;
	printf("long %ld\n", l);
	l = (long long)f;
	printf("long long %ld\n", l);
	u = (unsigned char)f;
	printf("unsigned char %lu\n", u);
	u = (unsigned short)f;
	printf("unsigned short %lu\n", u);
	u = (unsigned int)f;
	printf("unsigned int %lu\n", u);
	u = (unsigned long)f;
	printf("unsigned long %lu\n", u);
	u = (unsigned long long)f;
	printf("unsigned long long %lu\n", u);
	w = (float)f;
	printf("float %f\n", w);
	w = (double)f;
	printf("double %f\n", w);
	w = (long double)f;
	printf("long double %f\n", w);
	return 0;
}

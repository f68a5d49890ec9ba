int printf(const char *f, ...);
int main()
{
	char s0;
	short s1;
	int s2;
	long s3;
	long long s4;
	unsigned char s5;
	unsigned short s6;
	unsigned int s7;
	unsigned long s8;
	unsigned long long s9;
	double w;
	s0 = 100;
	w = (float)s0;
	printf("char float %f\n", w);
	w = (double)s0;
	printf("char double %f\n", w);
	w = (long double)s0;
	printf("char long double %f\n", w);
	s0 = -100;
	w = (float)s0;
	printf("char float %f\n", w);
	w = (double)s0;
	printf("char double %f\n", w);
	w = (long double)s0;
	printf("char long double %f\n", w);
	s1 = 100;
	w = (float)s1;
	printf("short float %f\n", w);
	w = (double)s1;
	printf("short double %f\n", w);
	w = (long double)s1;
	printf("short long double %f\n", w);
	s1 = -100;
	w = (float)s1;
	printf("short float %f\n", w);
	w = (double)s1;
	printf("short double %f\n", w);
	w = (long double)s1;
	printf("short long double %f\n", w);
	s2 = 100;
	w = (float)s2;
	printf("int float %f\n", w);
	w = (double)s2;
	printf("int double %f\n", w);
	w = (long double)s2;
	printf("int long double %f\n", w);
	s2 = -100;
	w = (float)s2;
	printf("int float %f\n", w);
	w = (double)s2;
	printf("int double %f\n", w);
	w = (long double)s2;
	printf("int long double %f\n", w);
	s3 = 100;
	w = (float)s3;
	printf("long float %f\n", w);
	w = (double)s3;
	printf("long double %f\n", w);
	w = (long double)s3;
	printf("long long double %f\n", w);
	s3 = -100;
	w = (float)s3;
	printf("long float %f\n", w);
	w = (double)s3;
	printf("long double %f\n", w);
	w = (long double)s3;
	printf("long long double %f\n", w);
	s4 = 100;
	w = (float)s4;
	printf("long long float %f\n", w);
	w = (double)s4;
	printf("long long double %f\n", w);
	w = (long double)s4;
	printf("long long long double %f\n", w);
	s4 = -100;
	w = (float)s4;
	printf("long long float %f\n", w);
	w = (double)s4;
	printf("long long double %f\n", w);
	w = (long double)s4;
	printf("long long long double %f\n", w);
	s5 = 100;
	w = (float)s5;
	printf("unsigned char float %f\n", w);
	w = (double)s5;
	printf("unsigned char double %f\n", w);
	w = (long double)s5;
	printf("unsigned char long double %f\n", w);
	s5 = 200;
	w = (float)s5;
	printf("unsigned char float %f\n", w);
	w = (double)s5;
	printf("unsigned char double %f\n", w);
	w = (long double)s5;
	printf("unsigned char long double %f\n", w);
	s6 = 100;
	w = (float)s6;
	printf("unsigned short float %f\n", w);
	w = (double)s6;
	printf("unsigned short double %f\n", w);
	w = (long double)s6;
	printf("unsigned short long double %f\n", w);
	s6 = 200;
	w = (float)s6;
	printf("unsigned short float %f\n", w);
	w = (double)s6;
	printf("unsigned short double %f\n", w);
	w = (long double)s6;
	printf("unsigned short long double %f\n", w);
	s7 = 100;
	w = (float)s7;
	printf("unsigned int float %f\n", w);
	w = (double)s7;
	printf("unsigned int double %f\n", w);
	w = (long double)s7;
	printf("unsigned int long double %f\n", w);
	s7 = 200;
	w = (float)s7;
	printf("unsigned int float %f\n", w);
	w = (double)s7;
	printf("unsigned int double %f\n", w);
	w = (long double)s7;
	printf("unsigned int long double %f\n", w);
	s8 = 100;
	w = (float)s8;
	printf("unsigned long float %f\n", w);
	w = (double)s8;
	printf("unsigned long double %f\n", w);
	w = (long double)s8;
	printf("unsigned long long double %f\n", w);
	s8 = 200;
	w = (float)s8;
	printf("unsigned long float %f\n", w);
	w = (double)s8;
	printf("unsigned long double %f\n", w);
	w = (long double)s8;
	printf("unsigned long long double %f\n", w);
	s9 = 100;
	w = (float)s9;
	printf("unsigned long long float %f\n", w);
	w = (double)s9;
	printf("unsigned long long double %f\n", w);
	w = (long double)s9;
	printf("unsigned long long long double %f\n", w);
	s9 = 200;
	w = (float)s9;
	printf("unsigned long long float %f\n", w);
	w = (double)s9;
	printf("unsigned long long double %f\n", w);
	w = (long double)s9;
	printf("unsigned long long long double %f\n", w);
	return 0;
}

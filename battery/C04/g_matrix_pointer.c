int printf(const char *f, ...);
int main()
{
	char *p;
	long l;
	unsigned long u;
	char s0;
	short s1;
	int s2;
	long s3;
	long long s4;
	unsigned char s5;
	unsigned short s6;
	unsigned int s7;
	unsigned long s8;
	unsigned long long s9;
	s0 = 100;
	p = (char *)s0;
	l = (long)p;
	printf("char to pointer %ld\n", l);
	s0 = 0;
	p = (char *)s0;
	l = (long)p;
	printf("char to pointer %ld\n", l);
	s1 = 100;
	p = (char *)s1;
	l = (long)p;
	printf("short to pointer %ld\n", l);
	s1 = 0;
	p = (char *)s1;
	l = (long)p;
	printf("short to pointer %ld\n", l);
	s2 = 100;
	p = (char *)s2;
	l = (long)p;
	printf("int to pointer %ld\n", l);
	s2 = 0;
	p = (char *)s2;
	l = (long)p;
	printf("int to pointer %ld\n", l);
	s3 = 100;
	p = (char *)s3;
	l = (long)p;
	printf("long to pointer %ld\n", l);
	s3 = 0;
	p = (char *)s3;
	l = (long)p;
	printf("long to pointer %ld\n", l);
	s4 = 100;
	p = (char *)s4;
	l = (long)p;
	printf("long long to pointer %ld\n", l);
	s4 = 0;
	p = (char *)s4;
	l = (long)p;
	printf("long long to pointer %ld\n", l);
	s5 = 100;
	p = (char *)s5;
	l = (long)p;
	printf("unsigned char to pointer %ld\n", l);
	s5 = 0;
	p = (char *)s5;
	l = (long)p;
	printf("unsigned char to pointer %ld\n", l);
	s6 = 100;
	p = (char *)s6;
	l = (long)p;
	printf("unsigned short to pointer %ld\n", l);
	s6 = 0;
	p = (char *)s6;
	l = (long)p;
	printf("unsigned short to pointer %ld\n", l);
	s7 = 100;
	p = (char *)s7;
	l = (long)p;
	printf("unsigned int to pointer %ld\n", l);
	s7 = 0;
	p = (char *)s7;
	l = (long)p;
	printf("unsigned int to pointer %ld\n", l);
	s8 = 100;
	p = (char *)s8;
	l = (long)p;
	printf("unsigned long to pointer %ld\n", l);
	s8 = 0;
	p = (char *)s8;
	l = (long)p;
	printf("unsigned long to pointer %ld\n", l);
	s9 = 100;
	p = (char *)s9;
	l = (long)p;
	printf("unsigned long long to pointer %ld\n", l);
	s9 = 0;
	p = (char *)s9;
	l = (long)p;
	printf("unsigned long long to pointer %ld\n", l);
	l = 65;
	p = (char *)l;
	l = (char)p;
	printf("pointer to char %ld\n", l);
	l = (short)p;
	printf("pointer to short %ld\n", l);
	l = (int)p;
	printf("pointer to int %ld\n", l);
	l = (long)p;
	printf("pointer to long %ld\n", l);
	l = (long long)p;
	printf("pointer to long long %ld\n", l);
	u = (unsigned char)p;
	printf("pointer to unsigned char %lu\n", u);
	u = (unsigned short)p;
	printf("pointer to unsigned short %lu\n", u);
	u = (unsigned int)p;
	printf("pointer to unsigned int %lu\n", u);
	u = (unsigned long)p;
	printf("pointer to unsigned long %lu\n", u);
	u = (unsigned long long)p;
	printf("pointer to unsigned long long %lu\n", u);
	l = 1234567890123;
	p = (char *)l;
	l = (char)p;
	printf("pointer to char %ld\n", l);
	l = (short)p;
	printf("pointer to short %ld\n", l);
	l = (int)p;
	printf("pointer to int %ld\n", l);
	l = (long)p;
	printf("pointer to long %ld\n", l);
	l = (long long)p;
	printf("pointer to long long %ld\n", l);
	u = (unsigned char)p;
	printf("pointer to unsigned char %lu\n", u);
	u = (unsigned short)p;
	printf("pointer to unsigned short %lu\n", u);
	u = (unsigned int)p;
	printf("pointer to unsigned int %lu\n", u);
	u = (unsigned long)p;
	printf("pointer to unsigned long %lu\n", u);
	u = (unsigned long long)p;
	printf("pointer to unsigned long long %lu\n", u);
	return 0;
}

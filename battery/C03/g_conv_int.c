int printf(const char *f, ...);
int main()
{
	char d_char;
	short d_short;
	int d_int;
	long d_long;
	long long d_long_long;
	unsigned char d_unsigned_char;
	unsigned short d_unsigned_short;
	unsigned int d_unsigned_int;
	unsigned long d_unsigned_long;
	unsigned long long d_unsigned_long_long;
	int s;
	long w;
	s = 0;
	w = s;
	printf("s %ld\n", w);
	d_char = s;
	w = d_char;
	printf("char %ld\n", w);
	d_short = s;
	w = d_short;
	printf("short %ld\n", w);
	d_int = s;
	w = d_int;
	printf("int %ld\n", w);
	d_long = s;
	w = d_long;
	printf("long %ld\n", w);
	d_long_long = s;
	w = d_long_long;
	printf("long_long %ld\n", w);
	d_unsigned_char = s;
	w = d_unsigned_char;
	printf("unsigned_char %ld\n", w);
	d_unsigned_short = s;
	w = d_unsigned_short;
	printf("unsigned_short %ld\n", w);
	d_unsigned_int = s;
	w = d_unsigned_int;
	printf("unsigned_int %ld\n", w);
	d_unsigned_long = s;
	w = d_unsigned_long;
	printf("unsigned_long %ld\n", w);
	d_unsigned_long_long = s;
	w = d_unsigned_long_long;
	printf("unsigned_long_long %ld\n", w);
	s = 1;
	w = s;
	printf("s %ld\n", w);
	d_char = s;
	w = d_char;
	printf("char %ld\n", w);
	d_short = s;
	w = d_short;
	printf("short %ld\n", w);
	d_int = s;
	w = d_int;
	printf("int %ld\n", w);
	d_long = s;
	w = d_long;
	printf("long %ld\n", w);
	d_long_long = s;
	w = d_long_long;
	printf("long_long %ld\n", w);
	d_unsigned_char = s;
	w = d_unsigned_char;
	printf("unsigned_char %ld\n", w);
	d_unsigned_short = s;
	w = d_unsigned_short;
	printf("unsigned_short %ld\n", w);
	d_unsigned_int = s;
	w = d_unsigned_int;
	printf("unsigned_int %ld\n", w);
	d_unsigned_long = s;
	w = d_unsigned_long;
	printf("unsigned_long %ld\n", w);
	d_unsigned_long_long = s;
	w = d_unsigned_long_long;
	printf("unsigned_long_long %ld\n", w);
	s = (-1);
	w = s;
	printf("s %ld\n", w);
	d_char = s;
	w = d_char;
	printf("char %ld\n", w);
	d_short = s;
	w = d_short;
	printf("short %ld\n", w);
	d_int = s;
	w = d_int;
	printf("int %ld\n", w);
	d_long = s;
	w = d_long;
	printf("long %ld\n", w);
	d_long_long = s;
	w = d_long_long;
	printf("long_long %ld\n", w);
	d_unsigned_char = s;
	w = d_unsigned_char;
	printf("unsigned_char %ld\n", w);
	d_unsigned_short = s;
	w = d_unsigned_short;
	printf("unsigned_short %ld\n", w);
	d_unsigned_int = s;
	w = d_unsigned_int;
	printf("unsigned_int %ld\n", w);
	d_unsigned_long = s;
	w = d_unsigned_long;
	printf("unsigned_long %ld\n", w);
	d_unsigned_long_long = s;
	w = d_unsigned_long_long;
	printf("unsigned_long_long %ld\n", w);
	s = 7;
	w = s;
	printf("s %ld\n", w);
	d_char = s;
	w = d_char;
	printf("char %ld\n", w);
	d_short = s;
	w = d_short;
	printf("short %ld\n", w);
	d_int = s;
	w = d_int;
	printf("int %ld\n", w);
	d_long = s;
	w = d_long;
	printf("long %ld\n", w);
	d_long_long = s;
	w = d_long_long;
	printf("long_long %ld\n", w);
	d_unsigned_char = s;
	w = d_unsigned_char;
	printf("unsigned_char %ld\n", w);
	d_unsigned_short = s;
	w = d_unsigned_short;
	printf("unsigned_short %ld\n", w);
	d_unsigned_int = s;
	w = d_unsigned_int;
	printf("unsigned_int %ld\n", w);
	d_unsigned_long = s;
	w = d_unsigned_long;
	printf("unsigned_long %ld\n", w);
	d_unsigned_long_long = s;
	w = d_unsigned_long_long;
	printf("unsigned_long_long %ld\n", w);
	s = (-7);
	w = s;
	printf("s %ld\n", w);
	d_char = s;
	w = d_char;
	printf("char %ld\n", w);
	d_short = s;
	w = d_short;
	printf("short %ld\n", w);
	d_int = s;
	w = d_int;
	printf("int %ld\n", w);
	d_long = s;
	w = d_long;
	printf("long %ld\n", w);
	d_long_long = s;
	w = d_long_long;
	printf("long_long %ld\n", w);
	d_unsigned_char = s;
	w = d_unsigned_char;
	printf("unsigned_char %ld\n", w);
	d_unsigned_short = s;
	w = d_unsigned_short;
	printf("unsigned_short %ld\n", w);
	d_unsigned_int = s;
	w = d_unsigned_int;
	printf("unsigned_int %ld\n", w);
	d_unsigned_long = s;
	w = d_unsigned_long;
	printf("unsigned_long %ld\n", w);
	d_unsigned_long_long = s;
	w = d_unsigned_long_long;
	printf("unsigned_long_long %ld\n", w);
	s = 100;
	w = s;
	printf("s %ld\n", w);
	d_char = s;
	w = d_char;
	printf("char %ld\n", w);
	d_short = s;
	w = d_short;
	printf("short %ld\n", w);
	d_int = s;
	w = d_int;
	printf("int %ld\n", w);
	d_long = s;
	w = d_long;
	printf("long %ld\n", w);
	d_long_long = s;
	w = d_long_long;
	printf("long_long %ld\n", w);
	d_unsigned_char = s;
	w = d_unsigned_char;
	printf("unsigned_char %ld\n", w);
	d_unsigned_short = s;
	w = d_unsigned_short;
	printf("unsigned_short %ld\n", w);
	d_unsigned_int = s;
	w = d_unsigned_int;
	printf("unsigned_int %ld\n", w);
	d_unsigned_long = s;
	w = d_unsigned_long;
	printf("unsigned_long %ld\n", w);
	d_unsigned_long_long = s;
	w = d_unsigned_long_long;
	printf("unsigned_long_long %ld\n", w);
	s = (-128);
	w = s;
	printf("s %ld\n", w);
	d_char = s;
	w = d_char;
	printf("char %ld\n", w);
	d_short = s;
	w = d_short;
	printf("short %ld\n", w);
	d_int = s;
	w = d_int;
	printf("int %ld\n", w);
	d_long = s;
	w = d_long;
	printf("long %ld\n", w);
	d_long_long = s;
	w = d_long_long;
	printf("long_long %ld\n", w);
	d_unsigned_char = s;
	w = d_unsigned_char;
	printf("unsigned_char %ld\n", w);
	d_unsigned_short = s;
	w = d_unsigned_short;
	printf("unsigned_short %ld\n", w);
	d_unsigned_int = s;
	w = d_unsigned_int;
	printf("unsigned_int %ld\n", w);
	d_unsigned_long = s;
	w = d_unsigned_long;
	printf("unsigned_long %ld\n", w);
	d_unsigned_long_long = s;
	w = d_unsigned_long_long;
	printf("unsigned_long_long %ld\n", w);
	s = 2147483647;
	w = s;
	printf("s %ld\n", w);
	d_char = s;
	w = d_char;
	printf("char %ld\n", w);
	d_short = s;
	w = d_short;
	printf("short %ld\n", w);
	d_int = s;
	w = d_int;
	printf("int %ld\n", w);
	d_long = s;
	w = d_long;
	printf("long %ld\n", w);
	d_long_long = s;
	w = d_long_long;
	printf("long_long %ld\n", w);
	d_unsigned_char = s;
	w = d_unsigned_char;
	printf("unsigned_char %ld\n", w);
	d_unsigned_short = s;
	w = d_unsigned_short;
	printf("unsigned_short %ld\n", w);
	d_unsigned_int = s;
	w = d_unsigned_int;
	printf("unsigned_int %ld\n", w);
	d_unsigned_long = s;
	w = d_unsigned_long;
	printf("unsigned_long %ld\n", w);
	d_unsigned_long_long = s;
	w = d_unsigned_long_long;
	printf("unsigned_long_long %ld\n", w);
	s = (-2147483648);
	w = s;
	printf("s %ld\n", w);
	d_char = s;
	w = d_char;
	printf("char %ld\n", w);
	d_short = s;
	w = d_short;
	printf("short %ld\n", w);
	d_int = s;
	w = d_int;
	printf("int %ld\n", w);
	d_long = s;
	w = d_long;
	printf("long %ld\n", w);
	d_long_long = s;
	w = d_long_long;
	printf("long_long %ld\n", w);
	d_unsigned_char = s;
	w = d_unsigned_char;
	printf("unsigned_char %ld\n", w);
	d_unsigned_short = s;
	w = d_unsigned_short;
	printf("unsigned_short %ld\n", w);
	d_unsigned_int = s;
	w = d_unsigned_int;
	printf("unsigned_int %ld\n", w);
	d_unsigned_long = s;
	w = d_unsigned_long;
	printf("unsigned_long %ld\n", w);
	d_unsigned_long_long = s;
	w = d_unsigned_long_long;
	printf("unsigned_long_long %ld\n", w);
	s = 1073741827;
	w = s;
	printf("s %ld\n", w);
	d_char = s;
	w = d_char;
	printf("char %ld\n", w);
	d_short = s;
	w = d_short;
	printf("short %ld\n", w);
	d_int = s;
	w = d_int;
	printf("int %ld\n", w);
	d_long = s;
	w = d_long;
	printf("long %ld\n", w);
	d_long_long = s;
	w = d_long_long;
	printf("long_long %ld\n", w);
	d_unsigned_char = s;
	w = d_unsigned_char;
	printf("unsigned_char %ld\n", w);
	d_unsigned_short = s;
	w = d_unsigned_short;
	printf("unsigned_short %ld\n", w);
	d_unsigned_int = s;
	w = d_unsigned_int;
	printf("unsigned_int %ld\n", w);
	d_unsigned_long = s;
	w = d_unsigned_long;
	printf("unsigned_long %ld\n", w);
	d_unsigned_long_long = s;
	w = d_unsigned_long_long;
	printf("unsigned_long_long %ld\n", w);
	s = 1099511627781;
	w = s;
	printf("s %ld\n", w);
	d_char = s;
	w = d_char;
	printf("char %ld\n", w);
	d_short = s;
	w = d_short;
	printf("short %ld\n", w);
	d_int = s;
	w = d_int;
	printf("int %ld\n", w);
	d_long = s;
	w = d_long;
	printf("long %ld\n", w);
	d_long_long = s;
	w = d_long_long;
	printf("long_long %ld\n", w);
	d_unsigned_char = s;
	w = d_unsigned_char;
	printf("unsigned_char %ld\n", w);
	d_unsigned_short = s;
	w = d_unsigned_short;
	printf("unsigned_short %ld\n", w);
	d_unsigned_int = s;
	w = d_unsigned_int;
	printf("unsigned_int %ld\n", w);
	d_unsigned_long = s;
	w = d_unsigned_long;
	printf("unsigned_long %ld\n", w);
	d_unsigned_long_long = s;
	w = d_unsigned_long_long;
	printf("unsigned_long_long %ld\n", w);
	s = 300;
	w = s;
	printf("s %ld\n", w);
	d_char = s;
	w = d_char;
	printf("char %ld\n", w);
	d_short = s;
	w = d_short;
	printf("short %ld\n", w);
	d_int = s;
	w = d_int;
	printf("int %ld\n", w);
	d_long = s;
	w = d_long;
	printf("long %ld\n", w);
	d_long_long = s;
	w = d_long_long;
	printf("long_long %ld\n", w);
	d_unsigned_char = s;
	w = d_unsigned_char;
	printf("unsigned_char %ld\n", w);
	d_unsigned_short = s;
	w = d_unsigned_short;
	printf("unsigned_short %ld\n", w);
	d_unsigned_int = s;
	w = d_unsigned_int;
	printf("unsigned_int %ld\n", w);
	d_unsigned_long = s;
	w = d_unsigned_long;
	printf("unsigned_long %ld\n", w);
	d_unsigned_long_long = s;
	w = d_unsigned_long_long;
	printf("unsigned_long_long %ld\n", w);
	s = 70000;
	w = s;
	printf("s %ld\n", w);
	d_char = s;
	w = d_char;
	printf("char %ld\n", w);
	d_short = s;
	w = d_short;
	printf("short %ld\n", w);
	d_int = s;
	w = d_int;
	printf("int %ld\n", w);
	d_long = s;
	w = d_long;
	printf("long %ld\n", w);
	d_long_long = s;
	w = d_long_long;
	printf("long_long %ld\n", w);
	d_unsigned_char = s;
	w = d_unsigned_char;
	printf("unsigned_char %ld\n", w);
	d_unsigned_short = s;
	w = d_unsigned_short;
	printf("unsigned_short %ld\n", w);
	d_unsigned_int = s;
	w = d_unsigned_int;
	printf("unsigned_int %ld\n", w);
	d_unsigned_long = s;
	w = d_unsigned_long;
	printf("unsigned_long %ld\n", w);
	d_unsigned_long_long = s;
	w = d_unsigned_long_long;
	printf("unsigned_long_long %ld\n", w);
	s = (-70000);
	w = s;
	printf("s %ld\n", w);
	d_char = s;
	w = d_char;
	printf("char %ld\n", w);
	d_short = s;
	w = d_short;
	printf("short %ld\n", w);
	d_int = s;
	w = d_int;
	printf("int %ld\n", w);
	d_long = s;
	w = d_long;
	printf("long %ld\n", w);
	d_long_long = s;
	w = d_long_long;
	printf("long_long %ld\n", w);
	d_unsigned_char = s;
	w = d_unsigned_char;
	printf("unsigned_char %ld\n", w);
	d_unsigned_short = s;
	w = d_unsigned_short;
	printf("unsigned_short %ld\n", w);
	d_unsigned_int = s;
	w = d_unsigned_int;
	printf("unsigned_int %ld\n", w);
	d_unsigned_long = s;
	w = d_unsigned_long;
	printf("unsigned_long %ld\n", w);
	d_unsigned_long_long = s;
	w = d_unsigned_long_long;
	printf("unsigned_long_long %ld\n", w);
	return 0;
}

int printf(const char *f, ...);
int main()
{
	short s;
	long w;
	long v;
	s = 0;
	v = 0;
	w = (char)s;
	printf("vchar %ld\n", w);
	w = (char)v;
	printf("lchar %ld\n", w);
	w = (char)0;
	printf("cchar %ld\n", w);
	w = (short)s;
	printf("vshort %ld\n", w);
	w = (short)v;
	printf("lshort %ld\n", w);
	w = (short)0;
	printf("cshort %ld\n", w);
	w = (int)s;
	printf("vint %ld\n", w);
	w = (int)v;
	printf("lint %ld\n", w);
	w = (int)0;
	printf("cint %ld\n", w);
	w = (long)s;
	printf("vlong %ld\n", w);
	w = (long)v;
	printf("llong %ld\n", w);
	w = (long)0;
	printf("clong %ld\n", w);
	w = (long long)s;
	printf("vlong_long %ld\n", w);
	w = (long long)v;
	printf("llong_long %ld\n", w);
	w = (long long)0;
	printf("clong_long %ld\n", w);
	w = (unsigned char)s;
	printf("vunsigned_char %ld\n", w);
	w = (unsigned char)v;
	printf("lunsigned_char %ld\n", w);
	w = (unsigned char)0;
	printf("cunsigned_char %ld\n", w);
	w = (unsigned short)s;
	printf("vunsigned_short %ld\n", w);
	w = (unsigned short)v;
	printf("lunsigned_short %ld\n", w);
	w = (unsigned short)0;
	printf("cunsigned_short %ld\n", w);
	w = (unsigned int)s;
	printf("vunsigned_int %ld\n", w);
	w = (unsigned int)v;
	printf("lunsigned_int %ld\n", w);
	w = (unsigned int)0;
	printf("cunsigned_int %ld\n", w);
	w = (unsigned long)s;
	printf("vunsigned_long %ld\n", w);
	w = (unsigned long)v;
	printf("lunsigned_long %ld\n", w);
	w = (unsigned long)0;
	printf("cunsigned_long %ld\n", w);
	w = (unsigned long long)s;
	printf("vunsigned_long_long %ld\n", w);
	w = (unsigned long long)v;
	printf("lunsigned_long_long %ld\n", w);
	w = (unsigned long long)0;
	printf("cunsigned_long_long %ld\n", w);
	s = 1;
	v = 1;
	w = (char)s;
	printf("vchar %ld\n", w);
	w = (char)v;
	printf("lchar %ld\n", w);
	w = (char)1;
	printf("cchar %ld\n", w);
	w = (short)s;
	printf("vshort %ld\n", w);
	w = (short)v;
	printf("lshort %ld\n", w);
	w = (short)1;
	printf("cshort %ld\n", w);
	w = (int)s;
	printf("vint %ld\n", w);
	w = (int)v;
	printf("lint %ld\n", w);
	w = (int)1;
	printf("cint %ld\n", w);
	w = (long)s;
	printf("vlong %ld\n", w);
	w = (long)v;
	printf("llong %ld\n", w);
	w = (long)1;
	printf("clong %ld\n", w);
	w = (long long)s;
	printf("vlong_long %ld\n", w);
	w = (long long)v;
	printf("llong_long %ld\n", w);
	w = (long long)1;
	printf("clong_long %ld\n", w);
	w = (unsigned char)s;
	printf("vunsigned_char %ld\n", w);
	w = (unsigned char)v;
	printf("lunsigned_char %ld\n", w);
	w = (unsigned char)1;
	printf("cunsigned_char %ld\n", w);
	w = (unsigned short)s;
	printf("vunsigned_short %ld\n", w);
	w = (unsigned short)v;
	printf("lunsigned_short %ld\n", w);
	w = (unsigned short)1;
	printf("cunsigned_short %ld\n", w);
	w = (unsigned int)s;
	printf("vunsigned_int %ld\n", w);
	w = (unsigned int)v;
	printf("lunsigned_int %ld\n", w);
	w = (unsigned int)1;
	printf("cunsigned_int %ld\n", w);
	w = (unsigned long)s;
	printf("vunsigned_long %ld\n", w);
	w = (unsigned long)v;
	printf("lunsigned_long %ld\n", w);
	w = (unsigned long)1;
	printf("cunsigned_long %ld\n", w);
	w = (unsigned long long)s;
	printf("vunsigned_long_long %ld\n", w);
	w = (unsigned long long)v;
	printf("lunsigned_long_long %ld\n", w);
	w = (unsigned long long)1;
	printf("cunsigned_long_long %ld\n", w);
	s = (-1);
	v = (-1);
	w = (char)s;
	printf("vchar %ld\n", w);
	w = (char)v;
	printf("lchar %ld\n", w);
	w = (char)(-1);
	printf("cchar %ld\n", w);
	w = (short)s;
	printf("vshort %ld\n", w);
	w = (short)v;
	printf("lshort %ld\n", w);
	w = (short)(-1);
	printf("cshort %ld\n", w);
	w = (int)s;
	printf("vint %ld\n", w);
	w = (int)v;
	printf("lint %ld\n", w);
	w = (int)(-1);
	printf("cint %ld\n", w);
	w = (long)s;
	printf("vlong %ld\n", w);
	w = (long)v;
	printf("llong %ld\n", w);
	w = (long)(-1);
	printf("clong %ld\n", w);
	w = (long long)s;
	printf("vlong_long %ld\n", w);
	w = (long long)v;
	printf("llong_long %ld\n", w);
	w = (long long)(-1);
	printf("clong_long %ld\n", w);
	w = (unsigned char)s;
	printf("vunsigned_char %ld\n", w);
	w = (unsigned char)v;
	printf("lunsigned_char %ld\n", w);
	w = (unsigned char)(-1);
	printf("cunsigned_char %ld\n", w);
	w = (unsigned short)s;
	printf("vunsigned_short %ld\n", w);
	w = (unsigned short)v;
	printf("lunsigned_short %ld\n", w);
	w = (unsigned short)(-1);
	printf("cunsigned_short %ld\n", w);
	w = (unsigned int)s;
	printf("vunsigned_int %ld\n", w);
	w = (unsigned int)v;
	printf("lunsigned_int %ld\n", w);
	w = (unsigned int)(-1);
	printf("cunsigned_int %ld\n", w);
	w = (unsigned long)s;
	printf("vunsigned_long %ld\n", w);
	w = (unsigned long)v;
	printf("lunsigned_long %ld\n", w);
	w = (unsigned long)(-1);
	printf("cunsigned_long %ld\n", w);
	w = (unsigned long long)s;
	printf("vunsigned_long_long %ld\n", w);
	w = (unsigned long long)v;
	printf("lunsigned_long_long %ld\n", w);
	w = (unsigned long long)(-1);
	printf("cunsigned_long_long %ld\n", w);
	s = 7;
	v = 7;
	w = (char)s;
	printf("vchar %ld\n", w);
	w = (char)v;
	printf("lchar %ld\n", w);
	w = (char)7;
	printf("cchar %ld\n", w);
	w = (short)s;
	printf("vshort %ld\n", w);
	w = (short)v;
	printf("lshort %ld\n", w);
	w = (short)7;
	printf("cshort %ld\n", w);
	w = (int)s;
	printf("vint %ld\n", w);
	w = (int)v;
	printf("lint %ld\n", w);
	w = (int)7;
	printf("cint %ld\n", w);
	w = (long)s;
	printf("vlong %ld\n", w);
	w = (long)v;
	printf("llong %ld\n", w);
	w = (long)7;
	printf("clong %ld\n", w);
	w = (long long)s;
	printf("vlong_long %ld\n", w);
	w = (long long)v;
	printf("llong_long %ld\n", w);
	w = (long long)7;
	printf("clong_long %ld\n", w);
	w = (unsigned char)s;
	printf("vunsigned_char %ld\n", w);
	w = (unsigned char)v;
	printf("lunsigned_char %ld\n", w);
	w = (unsigned char)7;
	printf("cunsigned_char %ld\n", w);
	w = (unsigned short)s;
	printf("vunsigned_short %ld\n", w);
	w = (unsigned short)v;
	printf("lunsigned_short %ld\n", w);
	w = (unsigned short)7;
	printf("cunsigned_short %ld\n", w);
	w = (unsigned int)s;
	printf("vunsigned_int %ld\n", w);
	w = (unsigned int)v;
	printf("lunsigned_int %ld\n", w);
	w = (unsigned int)7;
	printf("cunsigned_int %ld\n", w);
	w = (unsigned long)s;
	printf("vunsigned_long %ld\n", w);
	w = (unsigned long)v;
	printf("lunsigned_long %ld\n", w);
	w = (unsigned long)7;
	printf("cunsigned_long %ld\n", w);
	w = (unsigned long long)s;
	printf("vunsigned_long_long %ld\n", w);
	w = (unsigned long long)v;
	printf("lunsigned_long_long %ld\n", w);
	w = (unsigned long long)7;
	printf("cunsigned_long_long %ld\n", w);
	s = (-7);
	v = (-7);
	w = (char)s;
	printf("vchar %ld\n", w);
	w = (char)v;
	printf("lchar %ld\n", w);
	w = (char)(-7);
	printf("cchar %ld\n", w);
	w = (short)s;
	printf("vshort %ld\n", w);
	w = (short)v;
	printf("lshort %ld\n", w);
	w = (short)(-7);
	printf("cshort %ld\n", w);
	w = (int)s;
	printf("vint %ld\n", w);
	w = (int)v;
	printf("lint %ld\n", w);
	w = (int)(-7);
	printf("cint %ld\n", w);
	w = (long)s;
	printf("vlong %ld\n", w);
	w = (long)v;
	printf("llong %ld\n", w);
	w = (long)(-7);
	printf("clong %ld\n", w);
	w = (long long)s;
	printf("vlong_long %ld\n", w);
	w = (long long)v;
	printf("llong_long %ld\n", w);
	w = (long long)(-7);
	printf("clong_long %ld\n", w);
	w = (unsigned char)s;
	printf("vunsigned_char %ld\n", w);
	w = (unsigned char)v;
	printf("lunsigned_char %ld\n", w);
	w = (unsigned char)(-7);
	printf("cunsigned_char %ld\n", w);
	w = (unsigned short)s;
	printf("vunsigned_short %ld\n", w);
	w = (unsigned short)v;
	printf("lunsigned_short %ld\n", w);
	w = (unsigned short)(-7);
	printf("cunsigned_short %ld\n", w);
	w = (unsigned int)s;
	printf("vunsigned_int %ld\n", w);
	w = (unsigned int)v;
	printf("lunsigned_int %ld\n", w);
	w = (unsigned int)(-7);
	printf("cunsigned_int %ld\n", w);
	w = (unsigned long)s;
	printf("vunsigned_long %ld\n", w);
	w = (unsigned long)v;
	printf("lunsigned_long %ld\n", w);
	w = (unsigned long)(-7);
	printf("cunsigned_long %ld\n", w);
	w = (unsigned long long)s;
	printf("vunsigned_long_long %ld\n", w);
	w = (unsigned long long)v;
	printf("lunsigned_long_long %ld\n", w);
	w = (unsigned long long)(-7);
	printf("cunsigned_long_long %ld\n", w);
	s = 100;
	v = 100;
	w = (char)s;
	printf("vchar %ld\n", w);
	w = (char)v;
	printf("lchar %ld\n", w);
	w = (char)100;
	printf("cchar %ld\n", w);
	w = (short)s;
	printf("vshort %ld\n", w);
	w = (short)v;
	printf("lshort %ld\n", w);
	w = (short)100;
	printf("cshort %ld\n", w);
	w = (int)s;
	printf("vint %ld\n", w);
	w = (int)v;
	printf("lint %ld\n", w);
	w = (int)100;
	printf("cint %ld\n", w);
	w = (long)s;
	printf("vlong %ld\n", w);
	w = (long)v;
	printf("llong %ld\n", w);
	w = (long)100;
	printf("clong %ld\n", w);
	w = (long long)s;
	printf("vlong_long %ld\n", w);
	w = (long long)v;
	printf("llong_long %ld\n", w);
	w = (long long)100;
	printf("clong_long %ld\n", w);
	w = (unsigned char)s;
	printf("vunsigned_char %ld\n", w);
	w = (unsigned char)v;
	printf("lunsigned_char %ld\n", w);
	w = (unsigned char)100;
	printf("cunsigned_char %ld\n", w);
	w = (unsigned short)s;
	printf("vunsigned_short %ld\n", w);
	w = (unsigned short)v;
	printf("lunsigned_short %ld\n", w);
	w = (unsigned short)100;
	printf("cunsigned_short %ld\n", w);
	w = (unsigned int)s;
	printf("vunsigned_int %ld\n", w);
	w = (unsigned int)v;
	printf("lunsigned_int %ld\n", w);
	w = (unsigned int)100;
	printf("cunsigned_int %ld\n", w);
	w = (unsigned long)s;
	printf("vunsigned_long %ld\n", w);
	w = (unsigned long)v;
	printf("lunsigned_long %ld\n", w);
	w = (unsigned long)100;
	printf("cunsigned_long %ld\n", w);
	w = (unsigned long long)s;
	printf("vunsigned_long_long %ld\n", w);
	w = (unsigned long long)v;
	printf("lunsigned_long_long %ld\n", w);
	w = (unsigned long long)100;
	printf("cunsigned_long_long %ld\n", w);
	s = (-128);
	v = (-128);
	w = (char)s;
	printf("vchar %ld\n", w);
	w = (char)v;
	printf("lchar %ld\n", w);
	w = (char)(-128);
	printf("cchar %ld\n", w);
	w = (short)s;
	printf("vshort %ld\n", w);
	w = (short)v;
	printf("lshort %ld\n", w);
	w = (short)(-128);
	printf("cshort %ld\n", w);
	w = (int)s;
	printf("vint %ld\n", w);
	w = (int)v;
	printf("lint %ld\n", w);
	w = (int)(-128);
	printf("cint %ld\n", w);
	w = (long)s;
	printf("vlong %ld\n", w);
	w = (long)v;
	printf("llong %ld\n", w);
	w = (long)(-128);
	printf("clong %ld\n", w);
	w = (long long)s;
	printf("vlong_long %ld\n", w);
	w = (long long)v;
	printf("llong_long %ld\n", w);
	w = (long long)(-128);
	printf("clong_long %ld\n", w);
	w = (unsigned char)s;
	printf("vunsigned_char %ld\n", w);
	w = (unsigned char)v;
	printf("lunsigned_char %ld\n", w);
	w = (unsigned char)(-128);
	printf("cunsigned_char %ld\n", w);
	w = (unsigned short)s;
	printf("vunsigned_short %ld\n", w);
	w = (unsigned short)v;
	printf("lunsigned_short %ld\n", w);
	w = (unsigned short)(-128);
	printf("cunsigned_short %ld\n", w);
	w = (unsigned int)s;
	printf("vunsigned_int %ld\n", w);
	w = (unsigned int)v;
	printf("lunsigned_int %ld\n", w);
	w = (unsigned int)(-128);
	printf("cunsigned_int %ld\n", w);
	w = (unsigned long)s;
	printf("vunsigned_long %ld\n", w);
	w = (unsigned long)v;
	printf("lunsigned_long %ld\n", w);
	w = (unsigned long)(-128);
	printf("cunsigned_long %ld\n", w);
	w = (unsigned long long)s;
	printf("vunsigned_long_long %ld\n", w);
	w = (unsigned long long)v;
	printf("lunsigned_long_long %ld\n", w);
	w = (unsigned long long)(-128);
	printf("cunsigned_long_long %ld\n", w);
	s = 32767;
	v = 32767;
	w = (char)s;
	printf("vchar %ld\n", w);
	w = (char)v;
	printf("lchar %ld\n", w);
	w = (char)32767;
	printf("cchar %ld\n", w);
	w = (short)s;
	printf("vshort %ld\n", w);
	w = (short)v;
	printf("lshort %ld\n", w);
	w = (short)32767;
	printf("cshort %ld\n", w);
	w = (int)s;
	printf("vint %ld\n", w);
	w = (int)v;
	printf("lint %ld\n", w);
	w = (int)32767;
	printf("cint %ld\n", w);
	w = (long)s;
	printf("vlong %ld\n", w);
	w = (long)v;
	printf("llong %ld\n", w);
	w = (long)32767;
	printf("clong %ld\n", w);
	w = (long long)s;
	printf("vlong_long %ld\n", w);
	w = (long long)v;
	printf("llong_long %ld\n", w);
	w = (long long)32767;
	printf("clong_long %ld\n", w);
	w = (unsigned char)s;
	printf("vunsigned_char %ld\n", w);
	w = (unsigned char)v;
	printf("lunsigned_char %ld\n", w);
	w = (unsigned char)32767;
	printf("cunsigned_char %ld\n", w);
	w = (unsigned short)s;
	printf("vunsigned_short %ld\n", w);
	w = (unsigned short)v;
	printf("lunsigned_short %ld\n", w);
	w = (unsigned short)32767;
	printf("cunsigned_short %ld\n", w);
	w = (unsigned int)s;
	printf("vunsigned_int %ld\n", w);
	w = (unsigned int)v;
	printf("lunsigned_int %ld\n", w);
	w = (unsigned int)32767;
	printf("cunsigned_int %ld\n", w);
	w = (unsigned long)s;
	printf("vunsigned_long %ld\n", w);
	w = (unsigned long)v;
	printf("lunsigned_long %ld\n", w);
	w = (unsigned long)32767;
	printf("cunsigned_long %ld\n", w);
	w = (unsigned long long)s;
	printf("vunsigned_long_long %ld\n", w);
	w = (unsigned long long)v;
	printf("lunsigned_long_long %ld\n", w);
	w = (unsigned long long)32767;
	printf("cunsigned_long_long %ld\n", w);
	s = (-32768);
	v = (-32768);
	w = (char)s;
	printf("vchar %ld\n", w);
	w = (char)v;
	printf("lchar %ld\n", w);
	w = (char)(-32768);
	printf("cchar %ld\n", w);
	w = (short)s;
	printf("vshort %ld\n", w);
	w = (short)v;
	printf("lshort %ld\n", w);
	w = (short)(-32768);
	printf("cshort %ld\n", w);
	w = (int)s;
	printf("vint %ld\n", w);
	w = (int)v;
	printf("lint %ld\n", w);
	w = (int)(-32768);
	printf("cint %ld\n", w);
	w = (long)s;
	printf("vlong %ld\n", w);
	w = (long)v;
	printf("llong %ld\n", w);
	w = (long)(-32768);
	printf("clong %ld\n", w);
	w = (long long)s;
	printf("vlong_long %ld\n", w);
	w = (long long)v;
	printf("llong_long %ld\n", w);
	w = (long long)(-32768);
	printf("clong_long %ld\n", w);
	w = (unsigned char)s;
	printf("vunsigned_char %ld\n", w);
	w = (unsigned char)v;
	printf("lunsigned_char %ld\n", w);
	w = (unsigned char)(-32768);
	printf("cunsigned_char %ld\n", w);
	w = (unsigned short)s;
	printf("vunsigned_short %ld\n", w);
	w = (unsigned short)v;
	printf("lunsigned_short %ld\n", w);
	w = (unsigned short)(-32768);
	printf("cunsigned_short %ld\n", w);
	w = (unsigned int)s;
	printf("vunsigned_int %ld\n", w);
	w = (unsigned int)v;
	printf("lunsigned_int %ld\n", w);
	w = (unsigned int)(-32768);
	printf("cunsigned_int %ld\n", w);
	w = (unsigned long)s;
	printf("vunsigned_long %ld\n", w);
	w = (unsigned long)v;
	printf("lunsigned_long %ld\n", w);
	w = (unsigned long)(-32768);
	printf("cunsigned_long %ld\n", w);
	w = (unsigned long long)s;
	printf("vunsigned_long_long %ld\n", w);
	w = (unsigned long long)v;
	printf("lunsigned_long_long %ld\n", w);
	w = (unsigned long long)(-32768);
	printf("cunsigned_long_long %ld\n", w);
	s = 16387;
	v = 16387;
	w = (char)s;
	printf("vchar %ld\n", w);
	w = (char)v;
	printf("lchar %ld\n", w);
	w = (char)16387;
	printf("cchar %ld\n", w);
	w = (short)s;
	printf("vshort %ld\n", w);
	w = (short)v;
	printf("lshort %ld\n", w);
	w = (short)16387;
	printf("cshort %ld\n", w);
	w = (int)s;
	printf("vint %ld\n", w);
	w = (int)v;
	printf("lint %ld\n", w);
	w = (int)16387;
	printf("cint %ld\n", w);
	w = (long)s;
	printf("vlong %ld\n", w);
	w = (long)v;
	printf("llong %ld\n", w);
	w = (long)16387;
	printf("clong %ld\n", w);
	w = (long long)s;
	printf("vlong_long %ld\n", w);
	w = (long long)v;
	printf("llong_long %ld\n", w);
	w = (long long)16387;
	printf("clong_long %ld\n", w);
	w = (unsigned char)s;
	printf("vunsigned_char %ld\n", w);
	w = (unsigned char)v;
	printf("lunsigned_char %ld\n", w);
	w = (unsigned char)16387;
	printf("cunsigned_char %ld\n", w);
	w = (unsigned short)s;
	printf("vunsigned_short %ld\n", w);
	w = (unsigned short)v;
	printf("lunsigned_short %ld\n", w);
	w = (unsigned short)16387;
	printf("cunsigned_short %ld\n", w);
	w = (unsigned int)s;
	printf("vunsigned_int %ld\n", w);
	w = (unsigned int)v;
	printf("lunsigned_int %ld\n", w);
	w = (unsigned int)16387;
	printf("cunsigned_int %ld\n", w);
	w = (unsigned long)s;
	printf("vunsigned_long %ld\n", w);
	w = (unsigned long)v;
	printf("lunsigned_long %ld\n", w);
	w = (unsigned long)16387;
	printf("cunsigned_long %ld\n", w);
	w = (unsigned long long)s;
	printf("vunsigned_long_long %ld\n", w);
	w = (unsigned long long)v;
	printf("lunsigned_long_long %ld\n", w);
	w = (unsigned long long)16387;
	printf("cunsigned_long_long %ld\n", w);
	s = 300;
	v = 300;
	w = (char)s;
	printf("vchar %ld\n", w);
	w = (char)v;
	printf("lchar %ld\n", w);
	w = (char)300;
	printf("cchar %ld\n", w);
	w = (short)s;
	printf("vshort %ld\n", w);
	w = (short)v;
	printf("lshort %ld\n", w);
	w = (short)300;
	printf("cshort %ld\n", w);
	w = (int)s;
	printf("vint %ld\n", w);
	w = (int)v;
	printf("lint %ld\n", w);
	w = (int)300;
	printf("cint %ld\n", w);
	w = (long)s;
	printf("vlong %ld\n", w);
	w = (long)v;
	printf("llong %ld\n", w);
	w = (long)300;
	printf("clong %ld\n", w);
	w = (long long)s;
	printf("vlong_long %ld\n", w);
	w = (long long)v;
	printf("llong_long %ld\n", w);
	w = (long long)300;
	printf("clong_long %ld\n", w);
	w = (unsigned char)s;
	printf("vunsigned_char %ld\n", w);
	w = (unsigned char)v;
	printf("lunsigned_char %ld\n", w);
	w = (unsigned char)300;
	printf("cunsigned_char %ld\n", w);
	w = (unsigned short)s;
	printf("vunsigned_short %ld\n", w);
	w = (unsigned short)v;
	printf("lunsigned_short %ld\n", w);
	w = (unsigned short)300;
	printf("cunsigned_short %ld\n", w);
	w = (unsigned int)s;
	printf("vunsigned_int %ld\n", w);
	w = (unsigned int)v;
	printf("lunsigned_int %ld\n", w);
	w = (unsigned int)300;
	printf("cunsigned_int %ld\n", w);
	w = (unsigned long)s;
	printf("vunsigned_long %ld\n", w);
	w = (unsigned long)v;
	printf("lunsigned_long %ld\n", w);
	w = (unsigned long)300;
	printf("cunsigned_long %ld\n", w);
	w = (unsigned long long)s;
	printf("vunsigned_long_long %ld\n", w);
	w = (unsigned long long)v;
	printf("lunsigned_long_long %ld\n", w);
	w = (unsigned long long)300;
	printf("cunsigned_long_long %ld\n", w);
	s = 70000;
	v = 70000;
	w = (char)s;
	printf("vchar %ld\n", w);
	w = (char)v;
	printf("lchar %ld\n", w);
	w = (char)70000;
	printf("cchar %ld\n", w);
	w = (short)s;
	printf("vshort %ld\n", w);
	w = (short)v;
	printf("lshort %ld\n", w);
	w = (short)70000;
	printf("cshort %ld\n", w);
	w = (int)s;
	printf("vint %ld\n", w);
	w = (int)v;
	printf("lint %ld\n", w);
	w = (int)70000;
	printf("cint %ld\n", w);
	w = (long)s;
	printf("vlong %ld\n", w);
	w = (long)v;
	printf("llong %ld\n", w);
	w = (long)70000;
	printf("clong %ld\n", w);
	w = (long long)s;
	printf("vlong_long %ld\n", w);
	w = (long long)v;
	printf("llong_long %ld\n", w);
	w = (long long)70000;
	printf("clong_long %ld\n", w);
	w = (unsigned char)s;
	printf("vunsigned_char %ld\n", w);
	w = (unsigned char)v;
	printf("lunsigned_char %ld\n", w);
	w = (unsigned char)70000;
	printf("cunsigned_char %ld\n", w);
	w = (unsigned short)s;
	printf("vunsigned_short %ld\n", w);
	w = (unsigned short)v;
	printf("lunsigned_short %ld\n", w);
	w = (unsigned short)70000;
	printf("cunsigned_short %ld\n", w);
	w = (unsigned int)s;
	printf("vunsigned_int %ld\n", w);
	w = (unsigned int)v;
	printf("lunsigned_int %ld\n", w);
	w = (unsigned int)70000;
	printf("cunsigned_int %ld\n", w);
	w = (unsigned long)s;
	printf("vunsigned_long %ld\n", w);
	w = (unsigned long)v;
	printf("lunsigned_long %ld\n", w);
	w = (unsigned long)70000;
	printf("cunsigned_long %ld\n", w);
	w = (unsigned long long)s;
	printf("vunsigned_long_long %ld\n", w);
	w = (unsigned long long)v;
	printf("lunsigned_long_long %ld\n", w);
	w = (unsigned long long)70000;
	printf("cunsigned_long_long %ld\n", w);
	return 0;
}

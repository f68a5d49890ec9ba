int printf(const char *f, ...);
int main()
{
	short a;
	short r;
	long w;
	a = 0;
	r = a++;
	w = a;
	printf("a %ld\n", w);
	w = r;
	printf("a++ %ld\n", w);
	a = 0;
	r = ++a;
	w = a;
	printf("a %ld\n", w);
	w = r;
	printf("++a %ld\n", w);
	a = 0;
	r = a--;
	w = a;
	printf("a %ld\n", w);
	w = r;
	printf("a-- %ld\n", w);
	a = 0;
	r = --a;
	w = a;
	printf("a %ld\n", w);
	w = r;
	printf("--a %ld\n", w);
	a = 1;
	r = a++;
	w = a;
	printf("a %ld\n", w);
	w = r;
	printf("a++ %ld\n", w);
	a = 1;
	r = ++a;
	w = a;
	printf("a %ld\n", w);
	w = r;
	printf("++a %ld\n", w);
	a = 1;
	r = a--;
	w = a;
	printf("a %ld\n", w);
	w = r;
	printf("a-- %ld\n", w);
	a = 1;
	r = --a;
	w = a;
	printf("a %ld\n", w);
	w = r;
	printf("--a %ld\n", w);
	a = (-1);
	r = a++;
	w = a;
	printf("a %ld\n", w);
	w = r;
	printf("a++ %ld\n", w);
	a = (-1);
	r = ++a;
	w = a;
	printf("a %ld\n", w);
	w = r;
	printf("++a %ld\n", w);
	a = (-1);
	r = a--;
	w = a;
	printf("a %ld\n", w);
	w = r;
	printf("a-- %ld\n", w);
	a = (-1);
	r = --a;
	w = a;
	printf("a %ld\n", w);
	w = r;
	printf("--a %ld\n", w);
	a = 7;
	r = a++;
	w = a;
	printf("a %ld\n", w);
	w = r;
	printf("a++ %ld\n", w);
	a = 7;
	r = ++a;
	w = a;
	printf("a %ld\n", w);
	w = r;
	printf("++a %ld\n", w);
	a = 7;
	r = a--;
	w = a;
	printf("a %ld\n", w);
	w = r;
	printf("a-- %ld\n", w);
	a = 7;
	r = --a;
	w = a;
	printf("a %ld\n", w);
	w = r;
	printf("--a %ld\n", w);
	a = (-7);
	r = a++;
	w = a;
	printf("a %ld\n", w);
	w = r;
	printf("a++ %ld\n", w);
	a = (-7);
	r = ++a;
	w = a;
	printf("a %ld\n", w);
	w = r;
	printf("++a %ld\n", w);
	a = (-7);
	r = a--;
	w = a;
	printf("a %ld\n", w);
	w = r;
	printf("a-- %ld\n", w);
	a = (-7);
	r = --a;
	w = a;
	printf("a %ld\n", w);
	w = r;
	printf("--a %ld\n", w);
	a = 100;
	r = a++;
	w = a;
	printf("a %ld\n", w);
	w = r;
	printf("a++ %ld\n", w);
	a = 100;
	r = ++a;
	w = a;
	printf("a %ld\n", w);
	w = r;
	printf("++a %ld\n", w);
	a = 100;
	r = a--;
	w = a;
	printf("a %ld\n", w);
	w = r;
	printf("a-- %ld\n", w);
	a = 100;
	r = --a;
	w = a;
	printf("a %ld\n", w);
	w = r;
	printf("--a %ld\n", w);
	a = (-128);
	r = a++;
	w = a;
	printf("a %ld\n", w);
	w = r;
	printf("a++ %ld\n", w);
	a = (-128);
	r = ++a;
	w = a;
	printf("a %ld\n", w);
	w = r;
	printf("++a %ld\n", w);
	a = (-128);
	r = a--;
	w = a;
	printf("a %ld\n", w);
	w = r;
	printf("a-- %ld\n", w);
	a = (-128);
	r = --a;
	w = a;
	printf("a %ld\n", w);
	w = r;
	printf("--a %ld\n", w);
	a = 32767;
	r = a++;
	w = a;
	printf("a %ld\n", w);
	w = r;
	printf("a++ %ld\n", w);
	a = 32767;
	r = ++a;
	w = a;
	printf("a %ld\n", w);
	w = r;
	printf("++a %ld\n", w);
	a = 32767;
	r = a--;
	w = a;
	printf("a %ld\n", w);
	w = r;
	printf("a-- %ld\n", w);
	a = 32767;
	r = --a;
	w = a;
	printf("a %ld\n", w);
	w = r;
	printf("--a %ld\n", w);
	a = (-32768);
	r = a++;
	w = a;
	printf("a %ld\n", w);
	w = r;
	printf("a++ %ld\n", w);
	a = (-32768);
	r = ++a;
	w = a;
	printf("a %ld\n", w);
	w = r;
	printf("++a %ld\n", w);
	a = (-32768);
	r = a--;
	w = a;
	printf("a %ld\n", w);
	w = r;
	printf("a-- %ld\n", w);
	a = (-32768);
	r = --a;
	w = a;
	printf("a %ld\n", w);
	w = r;
	printf("--a %ld\n", w);
	a = 16387;
	r = a++;
	w = a;
	printf("a %ld\n", w);
	w = r;
	printf("a++ %ld\n", w);
	a = 16387;
	r = ++a;
	w = a;
	printf("a %ld\n", w);
	w = r;
	printf("++a %ld\n", w);
	a = 16387;
	r = a--;
	w = a;
	printf("a %ld\n", w);
	w = r;
	printf("a-- %ld\n", w);
	a = 16387;
	r = --a;
	w = a;
	printf("a %ld\n", w);
	w = r;
	printf("--a %ld\n", w);
	a = 5;
	a++;
	++a;
	a++;
	a--;
	w = a;
	printf("stmt %ld\n", w);
	return 0;
}

int printf(const char *f, ...);
int main()
{
	int a;
	int r;
	long w;
	a = 0;
	r = a++;
	w = a;
	printf("a %ld\n", w);
	w = r;
	printf("a++ %ld\n", w);
	a = 0;
	r = ++a;
	w = a;
	printf("a %ld\n", w);
	w = r;
	printf("++a %ld\n", w);
	a = 0;
	r = a--;
	w = a;
	printf("a %ld\n", w);
	w = r;
	printf("a-- %ld\n", w);
	a = 0;
	r = --a;
	w = a;
	printf("a %ld\n", w);
	w = r;
	printf("--a %ld\n", w);
	a = 1;
	r = a++;
	w = a;
	printf("a %ld\n", w);
	w = r;
	printf("a++ %ld\n", w);
	a = 1;
	r = ++a;
	w = a;
	printf("a %ld\n", w);
	w = r;
	printf("++a %ld\n", w);
	a = 1;
	r = a--;
	w = a;
	printf("a %ld\n", w);
	w = r;
	printf("a-- %ld\n", w);
	a = 1;
	r = --a;
	w = a;
	printf("a %ld\n", w);
	w = r;
	printf("--a %ld\n", w);
	a = (-1);
	r = a++;
	w = a;
	printf("a %ld\n", w);
	w = r;
	printf("a++ %ld\n", w);
	a = (-1);
	r = ++a;
	w = a;
	printf("a %ld\n", w);
	w = r;
	printf("++a %ld\n", w);
	a = (-1);
	r = a--;
	w = a;
	printf("a %ld\n", w);
	w = r;
	printf("a-- %ld\n", w);
	a = (-1);
	r = --a;
	w = a;
	printf("a %ld\n", w);
	w = r;
	printf("--a %ld\n", w);
	a = 7;
	r = a++;
	w = a;
	printf("a %ld\n", w);
	w = r;
	printf("a++ %ld\n", w);
	a = 7;
	r = ++a;
	w = a;
	printf("a %ld\n", w);
	w = r;
	printf("++a %ld\n", w);
	a = 7;
	r = a--;
	w = a;
	printf("a %ld\n", w);
	w = r;
	printf("a-- %ld\n", w);
	a = 7;
	r = --a;
	w = a;
	printf("a %ld\n", w);
	w = r;
	printf("--a %ld\n", w);
	a = (-7);
	r = a++;
	w = a;
	printf("a %ld\n", w);
	w = r;
	printf("a++ %ld\n", w);
	a = (-7);
	r = ++a;
	w = a;
	printf("a %ld\n", w);
	w = r;
	printf("++a %ld\n", w);
	a = (-7);
	r = a--;
	w = a;
	printf("a %ld\n", w);
	w = r;
	printf("a-- %ld\n", w);
	a = (-7);
	r = --a;
	w = a;
	printf("a %ld\n", w);
	w = r;
	printf("--a %ld\n", w);
	a = 100;
	r = a++;
	w = a;
	printf("a %ld\n", w);
	w = r;
	printf("a++ %ld\n", w);
	a = 100;
	r = ++a;
	w = a;
	printf("a %ld\n", w);
	w = r;
	printf("++a %ld\n", w);
	a = 100;
	r = a--;
	w = a;
	printf("a %ld\n", w);
	w = r;
	printf("a-- %ld\n", w);
	a = 100;
	r = --a;
	w = a;
	printf("a %ld\n", w);
	w = r;
	printf("--a %ld\n", w);
	a = (-128);
	r = a++;
	w = a;
	printf("a %ld\n", w);
	w = r;
	printf("a++ %ld\n", w);
	a = (-128);
	r = ++a;
	w = a;
	printf("a %ld\n", w);
	w = r;
	printf("++a %ld\n", w);
	a = (-128);
	r = a--;
	w = a;
	printf("a %ld\n", w);
	w = r;
	printf("a-- %ld\n", w);
	a = (-128);
	r = --a;
	w = a;
	printf("a %ld\n", w);
	w = r;
	printf("--a %ld\n", w);
	a = 2147483647;
	r = a++;
	w = a;
	printf("a %ld\n", w);
	w = r;
	printf("a++ %ld\n", w);
	a = 2147483647;
	r = ++a;
	w = a;
	printf("a %ld\n", w);
	w = r;
	printf("++a %ld\n", w);
	a = 2147483647;
	r = a--;
	w = a;
	printf("a %ld\n", w);
	w = r;
	printf("a-- %ld\n", w);
	a = 2147483647;
	r = --a;
	w = a;
	printf("a %ld\n", w);
	w = r;
	printf("--a %ld\n", w);
	a = (-2147483648);
	r = a++;
	w = a;
	printf("a %ld\n", w);
	w = r;
	printf("a++ %ld\n", w);
	a = (-2147483648);
	r = ++a;
	w = a;
	printf("a %ld\n", w);
	w = r;
	printf("++a %ld\n", w);
	a = (-2147483648);
	r = a--;
	w = a;
	printf("a %ld\n", w);
	w = r;
	printf("a-- %ld\n", w);
	a = (-2147483648);
	r = --a;
	w = a;
	printf("a %ld\n", w);
	w = r;
	printf("--a %ld\n", w);
	a = 1073741827;
	r = a++;
	w = a;
	printf("a %ld\n", w);
	w = r;
	printf("a++ %ld\n", w);
	a = 1073741827;
	r = ++a;
	w = a;
	printf("a %ld\n", w);
	w = r;
	printf("++a %ld\n", w);
	a = 1073741827;
	r = a--;
	w = a;
	printf("a %ld\n", w);
	w = r;
	printf("a-- %ld\n", w);
	a = 1073741827;
	r = --a;
	w = a;
	printf("a %ld\n", w);
	w = r;
	printf("--a %ld\n", w);
	a = 5;
	a++;
	++a;
	a++;
	a--;
	w = a;
	printf("stmt %ld\n", w);
	return 0;
}

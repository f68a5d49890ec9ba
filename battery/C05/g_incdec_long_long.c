int printf(const char *f, ...);
int main()
{
	long long a;
	long long r;
	long w;
	a = 0;
	r = a++;
	w = a;
	printf("a %ld\n", w);
	w = r;
	printf("a++ %ld\n", w);
	a = 0;
	r = ++a;
	w = a;
	printf("a %ld\n", w);
	w = r;
	printf("++a %ld\n", w);
	a = 0;
	r = a--;
	w = a;
	printf("a %ld\n", w);
	w = r;
	printf("a-- %ld\n", w);
	a = 0;
	r = --a;
	w = a;
	printf("a %ld\n", w);
	w = r;
	printf("--a %ld\n", w);
	a = 1;
	r = a++;
	w = a;
	printf("a %ld\n", w);
	w = r;
	printf("a++ %ld\n", w);
	a = 1;
	r = ++a;
	w = a;
	printf("a %ld\n", w);
	w = r;
	printf("++a %ld\n", w);
	a = 1;
	r = a--;
	w = a;
	printf("a %ld\n", w);
	w = r;
	printf("a-- %ld\n", w);
	a = 1;
	r = --a;
	w = a;
	printf("a %ld\n", w);
	w = r;
	printf("--a %ld\n", w);
	a = (-1);
	r = a++;
	w = a;
	printf("a %ld\n", w);
	w = r;
	printf("a++ %ld\n", w);
	a = (-1);
	r = ++a;
	w = a;
	printf("a %ld\n", w);
	w = r;
	printf("++a %ld\n", w);
	a = (-1);
	r = a--;
	w = a;
	printf("a %ld\n", w);
	w = r;
	printf("a-- %ld\n", w);
	a = (-1);
	r = --a;
	w = a;
	printf("a %ld\n", w);
	w = r;
	printf("--a %ld\n", w);
	a = 7;
	r = a++;
	w = a;
	printf("a %ld\n", w);
	w = r;
	printf("a++ %ld\n", w);
	a = 7;
	r = ++a;
	w = a;
	printf("a %ld\n", w);
	w = r;
	printf("++a %ld\n", w);
	a = 7;
	r = a--;
	w = a;
	printf("a %ld\n", w);
	w = r;
	printf("a-- %ld\n", w);
	a = 7;
	r = --a;
	w = a;
	printf("a %ld\n", w);
	w = r;
	printf("--a %ld\n", w);
	a = (-7);
	r = a++;
	w = a;
	printf("a %ld\n", w);
	w = r;
	printf("a++ %ld\n", w);
	a = (-7);
	r = ++a;
	w = a;
	printf("a %ld\n", w);
	w = r;
	printf("++a %ld\n", w);
	a = (-7);
	r = a--;
	w = a;
	printf("a %ld\n", w);
	w = r;
	printf("a-- %ld\n", w);
	a = (-7);
	r = --a;
	w = a;
	printf("a %ld\n", w);
	w = r;
	printf("--a %ld\n", w);
	a = 100;
	r = a++;
	w = a;
	printf("a %ld\n", w);
	w = r;
	printf("a++ %ld\n", w);
	a = 100;
	r = ++a;
	w = a;
	printf("a %ld\n", w);
	w = r;
	printf("++a %ld\n", w);
	a = 100;
	r = a--;
	w = a;
	printf("a %ld\n", w);
	w = r;
	printf("a-- %ld\n", w);
	a = 100;
	r = --a;
	w = a;
	printf("a %ld\n", w);
	w = r;
	printf("--a %ld\n", w);
	a = (-128);
	r = a++;
	w = a;
	printf("a %ld\n", w);
	w = r;
	printf("a++ %ld\n", w);
	a = (-128);
	r = ++a;
	w = a;
	printf("a %ld\n", w);
	w = r;
	printf("++a %ld\n", w);
	a = (-128);
	r = a--;
	w = a;
	printf("a %ld\n", w);
	w = r;
	printf("a-- %ld\n", w);
	a = (-128);
	r = --a;
	w = a;
	printf("a %ld\n", w);
	w = r;
	printf("--a %ld\n", w);
	a = 9223372036854775807;
	r = a++;
	w = a;
	printf("a %ld\n", w);
	w = r;
	printf("a++ %ld\n", w);
	a = 9223372036854775807;
	r = ++a;
	w = a;
	printf("a %ld\n", w);
	w = r;
	printf("++a %ld\n", w);
	a = 9223372036854775807;
	r = a--;
	w = a;
	printf("a %ld\n", w);
	w = r;
	printf("a-- %ld\n", w);
	a = 9223372036854775807;
	r = --a;
	w = a;
	printf("a %ld\n", w);
	w = r;
	printf("--a %ld\n", w);
	a = (-9223372036854775807 - 1);
	r = a++;
	w = a;
	printf("a %ld\n", w);
	w = r;
	printf("a++ %ld\n", w);
	a = (-9223372036854775807 - 1);
	r = ++a;
	w = a;
	printf("a %ld\n", w);
	w = r;
	printf("++a %ld\n", w);
	a = (-9223372036854775807 - 1);
	r = a--;
	w = a;
	printf("a %ld\n", w);
	w = r;
	printf("a-- %ld\n", w);
	a = (-9223372036854775807 - 1);
	r = --a;
	w = a;
	printf("a %ld\n", w);
	w = r;
	printf("--a %ld\n", w);
	a = 4611686018427387907;
	r = a++;
	w = a;
	printf("a %ld\n", w);
	w = r;
	printf("a++ %ld\n", w);
	a = 4611686018427387907;
	r = ++a;
	w = a;
	printf("a %ld\n", w);
	w = r;
	printf("++a %ld\n", w);
	a = 4611686018427387907;
	r = a--;
	w = a;
	printf("a %ld\n", w);
	w = r;
	printf("a-- %ld\n", w);
	a = 4611686018427387907;
	r = --a;
	w = a;
	printf("a %ld\n", w);
	w = r;
	printf("--a %ld\n", w);
	a = 5;
	a++;
	++a;
	a++;
	a--;
	w = a;
	printf("stmt %ld\n", w);
	return 0;
}

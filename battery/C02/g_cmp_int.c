int printf(const char *f, ...);
int main()
{
	int a;
	int b;
	int r;
	long w;
	a = 0;
	b = 0;
	r = a < b;
	w = r;
	printf("< %ld\n", w);
	r = a > b;
	w = r;
	printf("> %ld\n", w);
	r = a <= b;
	w = r;
	printf("<= %ld\n", w);
	r = a >= b;
	w = r;
	printf(">= %ld\n", w);
	r = a == b;
	w = r;
	printf("== %ld\n", w);
	r = a != b;
	w = r;
	printf("!= %ld\n", w);
	r = a && b;
	w = r;
	printf("&& %ld\n", w);
	r = a || b;
	w = r;
	printf("|| %ld\n", w);
	a = 0;
	b = 7;
	r = a < b;
	w = r;
	printf("< %ld\n", w);
	r = a > b;
	w = r;
	printf("> %ld\n", w);
	r = a <= b;
	w = r;
	printf("<= %ld\n", w);
	r = a >= b;
	w = r;
	printf(">= %ld\n", w);
	r = a == b;
	w = r;
	printf("== %ld\n", w);
	r = a != b;
	w = r;
	printf("!= %ld\n", w);
	r = a && b;
	w = r;
	printf("&& %ld\n", w);
	r = a || b;
	w = r;
	printf("|| %ld\n", w);
	a = 0;
	b = (-128);
	r = a < b;
	w = r;
	printf("< %ld\n", w);
	r = a > b;
	w = r;
	printf("> %ld\n", w);
	r = a <= b;
	w = r;
	printf("<= %ld\n", w);
	r = a >= b;
	w = r;
	printf(">= %ld\n", w);
	r = a == b;
	w = r;
	printf("== %ld\n", w);
	r = a != b;
	w = r;
	printf("!= %ld\n", w);
	r = a && b;
	w = r;
	printf("&& %ld\n", w);
	r = a || b;
	w = r;
	printf("|| %ld\n", w);
	a = 0;
	b = 1073741827;
	r = a < b;
	w = r;
	printf("< %ld\n", w);
	r = a > b;
	w = r;
	printf("> %ld\n", w);
	r = a <= b;
	w = r;
	printf("<= %ld\n", w);
	r = a >= b;
	w = r;
	printf(">= %ld\n", w);
	r = a == b;
	w = r;
	printf("== %ld\n", w);
	r = a != b;
	w = r;
	printf("!= %ld\n", w);
	r = a && b;
	w = r;
	printf("&& %ld\n", w);
	r = a || b;
	w = r;
	printf("|| %ld\n", w);
	a = 0;
	b = 0;
	r = a < b;
	w = r;
	printf("< %ld\n", w);
	r = a > b;
	w = r;
	printf("> %ld\n", w);
	r = a <= b;
	w = r;
	printf("<= %ld\n", w);
	r = a >= b;
	w = r;
	printf(">= %ld\n", w);
	r = a == b;
	w = r;
	printf("== %ld\n", w);
	r = a != b;
	w = r;
	printf("!= %ld\n", w);
	r = a && b;
	w = r;
	printf("&& %ld\n", w);
	r = a || b;
	w = r;
	printf("|| %ld\n", w);
	r = !a;
	w = r;
	printf("! %ld\n", w);
	r = a ? 3 : 4;
	w = r;
	printf("? %ld\n", w);
	a = 1;
	b = 0;
	r = a < b;
	w = r;
	printf("< %ld\n", w);
	r = a > b;
	w = r;
	printf("> %ld\n", w);
	r = a <= b;
	w = r;
	printf("<= %ld\n", w);
	r = a >= b;
	w = r;
	printf(">= %ld\n", w);
	r = a == b;
	w = r;
	printf("== %ld\n", w);
	r = a != b;
	w = r;
	printf("!= %ld\n", w);
	r = a && b;
	w = r;
	printf("&& %ld\n", w);
	r = a || b;
	w = r;
	printf("|| %ld\n", w);
	a = 1;
	b = 7;
	r = a < b;
	w = r;
	printf("< %ld\n", w);
	r = a > b;
	w = r;
	printf("> %ld\n", w);
	r = a <= b;
	w = r;
	printf("<= %ld\n", w);
	r = a >= b;
	w = r;
	printf(">= %ld\n", w);
	r = a == b;
	w = r;
	printf("== %ld\n", w);
	r = a != b;
	w = r;
	printf("!= %ld\n", w);
	r = a && b;
	w = r;
	printf("&& %ld\n", w);
	r = a || b;
	w = r;
	printf("|| %ld\n", w);
	a = 1;
	b = (-128);
	r = a < b;
	w = r;
	printf("< %ld\n", w);
	r = a > b;
	w = r;
	printf("> %ld\n", w);
	r = a <= b;
	w = r;
	printf("<= %ld\n", w);
	r = a >= b;
	w = r;
	printf(">= %ld\n", w);
	r = a == b;
	w = r;
	printf("== %ld\n", w);
	r = a != b;
	w = r;
	printf("!= %ld\n", w);
	r = a && b;
	w = r;
	printf("&& %ld\n", w);
	r = a || b;
	w = r;
	printf("|| %ld\n", w);
	a = 1;
	b = 1073741827;
	r = a < b;
	w = r;
	printf("< %ld\n", w);
	r = a > b;
	w = r;
	printf("> %ld\n", w);
	r = a <= b;
	w = r;
	printf("<= %ld\n", w);
	r = a >= b;
	w = r;
	printf(">= %ld\n", w);
	r = a == b;
	w = r;
	printf("== %ld\n", w);
	r = a != b;
	w = r;
	printf("!= %ld\n", w);
	r = a && b;
	w = r;
	printf("&& %ld\n", w);
	r = a || b;
	w = r;
	printf("|| %ld\n", w);
	a = 1;
	b = 1;
	r = a < b;
	w = r;
	printf("< %ld\n", w);
	r = a > b;
	w = r;
	printf("> %ld\n", w);
	r = a <= b;
	w = r;
	printf("<= %ld\n", w);
	r = a >= b;
	w = r;
	printf(">= %ld\n", w);
	r = a == b;
	w = r;
	printf("== %ld\n", w);
	r = a != b;
	w = r;
	printf("!= %ld\n", w);
	r = a && b;
	w = r;
	printf("&& %ld\n", w);
	r = a || b;
	w = r;
	printf("|| %ld\n", w);
	r = !a;
	w = r;
	printf("! %ld\n", w);
	r = a ? 3 : 4;
	w = r;
	printf("? %ld\n", w);
	a = (-1);
	b = 0;
	r = a < b;
	w = r;
	printf("< %ld\n", w);
	r = a > b;
	w = r;
	printf("> %ld\n", w);
	r = a <= b;
	w = r;
	printf("<= %ld\n", w);
	r = a >= b;
	w = r;
	printf(">= %ld\n", w);
	r = a == b;
	w = r;
	printf("== %ld\n", w);
	r = a != b;
	w = r;
	printf("!= %ld\n", w);
	r = a && b;
	w = r;
	printf("&& %ld\n", w);
	r = a || b;
	w = r;
	printf("|| %ld\n", w);
	a = (-1);
	b = 7;
	r = a < b;
	w = r;
	printf("< %ld\n", w);
	r = a > b;
	w = r;
	printf("> %ld\n", w);
	r = a <= b;
	w = r;
	printf("<= %ld\n", w);
	r = a >= b;
	w = r;
	printf(">= %ld\n", w);
	r = a == b;
	w = r;
	printf("== %ld\n", w);
	r = a != b;
	w = r;
	printf("!= %ld\n", w);
	r = a && b;
	w = r;
	printf("&& %ld\n", w);
	r = a || b;
	w = r;
	printf("|| %ld\n", w);
	a = (-1);
	b = (-128);
	r = a < b;
	w = r;
	printf("< %ld\n", w);
	r = a > b;
	w = r;
	printf("> %ld\n", w);
	r = a <= b;
	w = r;
	printf("<= %ld\n", w);
	r = a >= b;
	w = r;
	printf(">= %ld\n", w);
	r = a == b;
	w = r;
	printf("== %ld\n", w);
	r = a != b;
	w = r;
	printf("!= %ld\n", w);
	r = a && b;
	w = r;
	printf("&& %ld\n", w);
	r = a || b;
	w = r;
	printf("|| %ld\n", w);
	a = (-1);
	b = 1073741827;
	r = a < b;
	w = r;
	printf("< %ld\n", w);
	r = a > b;
	w = r;
	printf("> %ld\n", w);
	r = a <= b;
	w = r;
	printf("<= %ld\n", w);
	r = a >= b;
	w = r;
	printf(">= %ld\n", w);
	r = a == b;
	w = r;
	printf("== %ld\n", w);
	r = a != b;
	w = r;
	printf("!= %ld\n", w);
	r = a && b;
	w = r;
	printf("&& %ld\n", w);
	r = a || b;
	w = r;
	printf("|| %ld\n", w);
	a = (-1);
	b = (-1);
	r = a < b;
	w = r;
	printf("< %ld\n", w);
	r = a > b;
	w = r;
	printf("> %ld\n", w);
	r = a <= b;
	w = r;
	printf("<= %ld\n", w);
	r = a >= b;
	w = r;
	printf(">= %ld\n", w);
	r = a == b;
	w = r;
	printf("== %ld\n", w);
	r = a != b;
	w = r;
	printf("!= %ld\n", w);
	r = a && b;
	w = r;
	printf("&& %ld\n", w);
	r = a || b;
	w = r;
	printf("|| %ld\n", w);
	r = !a;
	w = r;
	printf("! %ld\n", w);
	r = a ? 3 : 4;
	w = r;
	printf("? %ld\n", w);
	a = 7;
	b = 0;
	r = a < b;
	w = r;
	printf("< %ld\n", w);
	r = a > b;
	w = r;
	printf("> %ld\n", w);
	r = a <= b;
	w = r;
	printf("<= %ld\n", w);
	r = a >= b;
	w = r;
	printf(">= %ld\n", w);
	r = a == b;
	w = r;
	printf("== %ld\n", w);
	r = a != b;
	w = r;
	printf("!= %ld\n", w);
	r = a && b;
	w = r;
	printf("&& %ld\n", w);
	r = a || b;
	w = r;
	printf("|| %ld\n", w);
	a = 7;
	b = 7;
	r = a < b;
	w = r;
	printf("< %ld\n", w);
	r = a > b;
	w = r;
	printf("> %ld\n", w);
	r = a <= b;
	w = r;
	printf("<= %ld\n", w);
	r = a >= b;
	w = r;
	printf(">= %ld\n", w);
	r = a == b;
	w = r;
	printf("== %ld\n", w);
	r = a != b;
	w = r;
	printf("!= %ld\n", w);
	r = a && b;
	w = r;
	printf("&& %ld\n", w);
	r = a || b;
	w = r;
	printf("|| %ld\n", w);
	a = 7;
	b = (-128);
	r = a < b;
	w = r;
	printf("< %ld\n", w);
	r = a > b;
	w = r;
	printf("> %ld\n", w);
	r = a <= b;
	w = r;
	printf("<= %ld\n", w);
	r = a >= b;
	w = r;
	printf(">= %ld\n", w);
	r = a == b;
	w = r;
	printf("== %ld\n", w);
	r = a != b;
	w = r;
	printf("!= %ld\n", w);
	r = a && b;
	w = r;
	printf("&& %ld\n", w);
	r = a || b;
	w = r;
	printf("|| %ld\n", w);
	a = 7;
	b = 1073741827;
	r = a < b;
	w = r;
	printf("< %ld\n", w);
	r = a > b;
	w = r;
	printf("> %ld\n", w);
	r = a <= b;
	w = r;
	printf("<= %ld\n", w);
	r = a >= b;
	w = r;
	printf(">= %ld\n", w);
	r = a == b;
	w = r;
	printf("== %ld\n", w);
	r = a != b;
	w = r;
	printf("!= %ld\n", w);
	r = a && b;
	w = r;
	printf("&& %ld\n", w);
	r = a || b;
	w = r;
	printf("|| %ld\n", w);
	a = 7;
	b = 7;
	r = a < b;
	w = r;
	printf("< %ld\n", w);
	r = a > b;
	w = r;
	printf("> %ld\n", w);
	r = a <= b;
	w = r;
	printf("<= %ld\n", w);
	r = a >= b;
	w = r;
	printf(">= %ld\n", w);
	r = a == b;
	w = r;
	printf("== %ld\n", w);
	r = a != b;
	w = r;
	printf("!= %ld\n", w);
	r = a && b;
	w = r;
	printf("&& %ld\n", w);
	r = a || b;
	w = r;
	printf("|| %ld\n", w);
	r = !a;
	w = r;
	printf("! %ld\n", w);
	r = a ? 3 : 4;
	w = r;
	printf("? %ld\n", w);
	a = (-7);
	b = 0;
	r = a < b;
	w = r;
	printf("< %ld\n", w);
	r = a > b;
	w = r;
	printf("> %ld\n", w);
	r = a <= b;
	w = r;
	printf("<= %ld\n", w);
	r = a >= b;
	w = r;
	printf(">= %ld\n", w);
	r = a == b;
	w = r;
	printf("== %ld\n", w);
	r = a != b;
	w = r;
	printf("!= %ld\n", w);
	r = a && b;
	w = r;
	printf("&& %ld\n", w);
	r = a || b;
	w = r;
	printf("|| %ld\n", w);
	a = (-7);
	b = 7;
	r = a < b;
	w = r;
	printf("< %ld\n", w);
	r = a > b;
	w = r;
	printf("> %ld\n", w);
	r = a <= b;
	w = r;
	printf("<= %ld\n", w);
	r = a >= b;
	w = r;
	printf(">= %ld\n", w);
	r = a == b;
	w = r;
	printf("== %ld\n", w);
	r = a != b;
	w = r;
	printf("!= %ld\n", w);
	r = a && b;
	w = r;
	printf("&& %ld\n", w);
	r = a || b;
	w = r;
	printf("|| %ld\n", w);
	a = (-7);
	b = (-128);
	r = a < b;
	w = r;
	printf("< %ld\n", w);
	r = a > b;
	w = r;
	printf("> %ld\n", w);
	r = a <= b;
	w = r;
	printf("<= %ld\n", w);
	r = a >= b;
	w = r;
	printf(">= %ld\n", w);
	r = a == b;
	w = r;
	printf("== %ld\n", w);
	r = a != b;
	w = r;
	printf("!= %ld\n", w);
	r = a && b;
	w = r;
	printf("&& %ld\n", w);
	r = a || b;
	w = r;
	printf("|| %ld\n", w);
	a = (-7);
	b = 1073741827;
	r = a < b;
	w = r;
	printf("< %ld\n", w);
	r = a > b;
	w = r;
	printf("> %ld\n", w);
	r = a <= b;
	w = r;
	printf("<= %ld\n", w);
	r = a >= b;
	w = r;
	printf(">= %ld\n", w);
	r = a == b;
	w = r;
	printf("== %ld\n", w);
	r = a != b;
	w = r;
	printf("!= %ld\n", w);
	r = a && b;
	w = r;
	printf("&& %ld\n", w);
	r = a || b;
	w = r;
	printf("|| %ld\n", w);
	a = (-7);
	b = (-7);
	r = a < b;
	w = r;
	printf("< %ld\n", w);
	r = a > b;
	w = r;
	printf("> %ld\n", w);
	r = a <= b;
	w = r;
	printf("<= %ld\n", w);
	r = a >= b;
	w = r;
	printf(">= %ld\n", w);
	r = a == b;
	w = r;
	printf("== %ld\n", w);
	r = a != b;
	w = r;
	printf("!= %ld\n", w);
	r = a && b;
	w = r;
	printf("&& %ld\n", w);
	r = a || b;
	w = r;
	printf("|| %ld\n", w);
	r = !a;
	w = r;
	printf("! %ld\n", w);
	r = a ? 3 : 4;
	w = r;
	printf("? %ld\n", w);
	a = 100;
	b = 0;
	r = a < b;
	w = r;
	printf("< %ld\n", w);
	r = a > b;
	w = r;
	printf("> %ld\n", w);
	r = a <= b;
	w = r;
	printf("<= %ld\n", w);
	r = a >= b;
	w = r;
	printf(">= %ld\n", w);
	r = a == b;
	w = r;
	printf("== %ld\n", w);
	r = a != b;
	w = r;
	printf("!= %ld\n", w);
	r = a && b;
	w = r;
	printf("&& %ld\n", w);
	r = a || b;
	w = r;
	printf("|| %ld\n", w);
	a = 100;
	b = 7;
	r = a < b;
	w = r;
	printf("< %ld\n", w);
	r = a > b;
	w = r;
	printf("> %ld\n", w);
	r = a <= b;
	w = r;
	printf("<= %ld\n", w);
	r = a >= b;
	w = r;
	printf(">= %ld\n", w);
	r = a == b;
	w = r;
	printf("== %ld\n", w);
	r = a != b;
	w = r;
	printf("!= %ld\n", w);
	r = a && b;
	w = r;
	printf("&& %ld\n", w);
	r = a || b;
	w = r;
	printf("|| %ld\n", w);
	a = 100;
	b = (-128);
	r = a < b;
	w = r;
	printf("< %ld\n", w);
	r = a > b;
	w = r;
	printf("> %ld\n", w);
	r = a <= b;
	w = r;
	printf("<= %ld\n", w);
	r = a >= b;
	w = r;
	printf(">= %ld\n", w);
	r = a == b;
	w = r;
	printf("== %ld\n", w);
	r = a != b;
	w = r;
	printf("!= %ld\n", w);
	r = a && b;
	w = r;
	printf("&& %ld\n", w);
	r = a || b;
	w = r;
	printf("|| %ld\n", w);
	a = 100;
	b = 1073741827;
	r = a < b;
	w = r;
	printf("< %ld\n", w);
	r = a > b;
	w = r;
	printf("> %ld\n", w);
	r = a <= b;
	w = r;
	printf("<= %ld\n", w);
	r = a >= b;
	w = r;
	printf(">= %ld\n", w);
	r = a == b;
	w = r;
	printf("== %ld\n", w);
	r = a != b;
	w = r;
	printf("!= %ld\n", w);
	r = a && b;
	w = r;
	printf("&& %ld\n", w);
	r = a || b;
	w = r;
	printf("|| %ld\n", w);
	a = 100;
	b = 100;
	r = a < b;
	w = r;
	printf("< %ld\n", w);
	r = a > b;
	w = r;
	printf("> %ld\n", w);
	r = a <= b;
	w = r;
	printf("<= %ld\n", w);
	r = a >= b;
	w = r;
	printf(">= %ld\n", w);
	r = a == b;
	w = r;
	printf("== %ld\n", w);
	r = a != b;
	w = r;
	printf("!= %ld\n", w);
	r = a && b;
	w = r;
	printf("&& %ld\n", w);
	r = a || b;
	w = r;
	printf("|| %ld\n", w);
	r = !a;
	w = r;
	printf("! %ld\n", w);
	r = a ? 3 : 4;
	w = r;
	printf("? %ld\n", w);
	a = (-128);
	b = 0;
	r = a < b;
	w = r;
	printf("< %ld\n", w);
	r = a > b;
	w = r;
	printf("> %ld\n", w);
	r = a <= b;
	w = r;
	printf("<= %ld\n", w);
	r = a >= b;
	w = r;
	printf(">= %ld\n", w);
	r = a == b;
	w = r;
	printf("== %ld\n", w);
	r = a != b;
	w = r;
	printf("!= %ld\n", w);
	r = a && b;
	w = r;
	printf("&& %ld\n", w);
	r = a || b;
	w = r;
	printf("|| %ld\n", w);
	a = (-128);
	b = 7;
	r = a < b;
	w = r;
	printf("< %ld\n", w);
	r = a > b;
	w = r;
	printf("> %ld\n", w);
	r = a <= b;
	w = r;
	printf("<= %ld\n", w);
	r = a >= b;
	w = r;
	printf(">= %ld\n", w);
	r = a == b;
	w = r;
	printf("== %ld\n", w);
	r = a != b;
	w = r;
	printf("!= %ld\n", w);
	r = a && b;
	w = r;
	printf("&& %ld\n", w);
	r = a || b;
	w = r;
	printf("|| %ld\n", w);
	a = (-128);
	b = (-128);
	r = a < b;
	w = r;
	printf("< %ld\n", w);
	r = a > b;
	w = r;
	printf("> %ld\n", w);
	r = a <= b;
	w = r;
	printf("<= %ld\n", w);
	r = a >= b;
	w = r;
	printf(">= %ld\n", w);
	r = a == b;
	w = r;
	printf("== %ld\n", w);
	r = a != b;
	w = r;
	printf("!= %ld\n", w);
	r = a && b;
	w = r;
	printf("&& %ld\n", w);
	r = a || b;
	w = r;
	printf("|| %ld\n", w);
	a = (-128);
	b = 1073741827;
	r = a < b;
	w = r;
	printf("< %ld\n", w);
	r = a > b;
	w = r;
	printf("> %ld\n", w);
	r = a <= b;
	w = r;
	printf("<= %ld\n", w);
	r = a >= b;
	w = r;
	printf(">= %ld\n", w);
	r = a == b;
	w = r;
	printf("== %ld\n", w);
	r = a != b;
	w = r;
	printf("!= %ld\n", w);
	r = a && b;
	w = r;
	printf("&& %ld\n", w);
	r = a || b;
	w = r;
	printf("|| %ld\n", w);
	a = (-128);
	b = (-128);
	r = a < b;
	w = r;
	printf("< %ld\n", w);
	r = a > b;
	w = r;
	printf("> %ld\n", w);
	r = a <= b;
	w = r;
	printf("<= %ld\n", w);
	r = a >= b;
	w = r;
	printf(">= %ld\n", w);
	r = a == b;
	w = r;
	printf("== %ld\n", w);
	r = a != b;
	w = r;
	printf("!= %ld\n", w);
	r = a && b;
	w = r;
	printf("&& %ld\n", w);
	r = a || b;
	w = r;
	printf("|| %ld\n", w);
	r = !a;
	w = r;
	printf("! %ld\n", w);
	r = a ? 3 : 4;
	w = r;
	printf("? %ld\n", w);
	a = 2147483647;
	b = 0;
	r = a < b;
	w = r;
	printf("< %ld\n", w);
	r = a > b;
	w = r;
	printf("> %ld\n", w);
	r = a <= b;
	w = r;
	printf("<= %ld\n", w);
	r = a >= b;
	w = r;
	printf(">= %ld\n", w);
	r = a == b;
	w = r;
	printf("== %ld\n", w);
	r = a != b;
	w = r;
	printf("!= %ld\n", w);
	r = a && b;
	w = r;
	printf("&& %ld\n", w);
	r = a || b;
	w = r;
	printf("|| %ld\n", w);
	a = 2147483647;
	b = 7;
	r = a < b;
	w = r;
	printf("< %ld\n", w);
	r = a > b;
	w = r;
	printf("> %ld\n", w);
	r = a <= b;
	w = r;
	printf("<= %ld\n", w);
	r = a >= b;
	w = r;
	printf(">= %ld\n", w);
	r = a == b;
	w = r;
	printf("== %ld\n", w);
	r = a != b;
	w = r;
	printf("!= %ld\n", w);
	r = a && b;
	w = r;
	printf("&& %ld\n", w);
	r = a || b;
	w = r;
	printf("|| %ld\n", w);
	a = 2147483647;
	b = (-128);
	r = a < b;
	w = r;
	printf("< %ld\n", w);
	r = a > b;
	w = r;
	printf("> %ld\n", w);
	r = a <= b;
	w = r;
	printf("<= %ld\n", w);
	r = a >= b;
	w = r;
	printf(">= %ld\n", w);
	r = a == b;
	w = r;
	printf("== %ld\n", w);
	r = a != b;
	w = r;
	printf("!= %ld\n", w);
	r = a && b;
	w = r;
	printf("&& %ld\n", w);
	r = a || b;
	w = r;
	printf("|| %ld\n", w);
	a = 2147483647;
	b = 1073741827;
	r = a < b;
	w = r;
	printf("< %ld\n", w);
	r = a > b;
	w = r;
	printf("> %ld\n", w);
	r = a <= b;
	w = r;
	printf("<= %ld\n", w);
	r = a >= b;
	w = r;
	printf(">= %ld\n", w);
	r = a == b;
	w = r;
	printf("== %ld\n", w);
	r = a != b;
	w = r;
	printf("!= %ld\n", w);
	r = a && b;
	w = r;
	printf("&& %ld\n", w);
	r = a || b;
	w = r;
	printf("|| %ld\n", w);
	a = 2147483647;
	b = 2147483647;
	r = a < b;
	w = r;
	printf("< %ld\n", w);
	r = a > b;
	w = r;
	printf("> %ld\n", w);
	r = a <= b;
	w = r;
	printf("<= %ld\n", w);
	r = a >= b;
	w = r;
	printf(">= %ld\n", w);
	r = a == b;
	w = r;
	printf("== %ld\n", w);
	r = a != b;
	w = r;
	printf("!= %ld\n", w);
	r = a && b;
	w = r;
	printf("&& %ld\n", w);
	r = a || b;
	w = r;
	printf("|| %ld\n", w);
	r = !a;
	w = r;
	printf("! %ld\n", w);
	r = a ? 3 : 4;
	w = r;
	printf("? %ld\n", w);
	a = (-2147483648);
	b = 0;
	r = a < b;
	w = r;
	printf("< %ld\n", w);
	r = a > b;
	w = r;
	printf("> %ld\n", w);
	r = a <= b;
	w = r;
	printf("<= %ld\n", w);
	r = a >= b;
	w = r;
	printf(">= %ld\n", w);
	r = a == b;
	w = r;
	printf("== %ld\n", w);
	r = a != b;
	w = r;
	printf("!= %ld\n", w);
	r = a && b;
	w = r;
	printf("&& %ld\n", w);
	r = a || b;
	w = r;
	printf("|| %ld\n", w);
	a = (-2147483648);
	b = 7;
	r = a < b;
	w = r;
	printf("< %ld\n", w);
	r = a > b;
	w = r;
	printf("> %ld\n", w);
	r = a <= b;
	w = r;
	printf("<= %ld\n", w);
	r = a >= b;
	w = r;
	printf(">= %ld\n", w);
	r = a == b;
	w = r;
	printf("== %ld\n", w);
	r = a != b;
	w = r;
	printf("!= %ld\n", w);
	r = a && b;
	w = r;
	printf("&& %ld\n", w);
	r = a || b;
	w = r;
	printf("|| %ld\n", w);
	a = (-2147483648);
	b = (-128);
	r = a < b;
	w = r;
	printf("< %ld\n", w);
	r = a > b;
	w = r;
	printf("> %ld\n", w);
	r = a <= b;
	w = r;
	printf("<= %ld\n", w);
	r = a >= b;
	w = r;
	printf(">= %ld\n", w);
	r = a == b;
	w = r;
	printf("== %ld\n", w);
	r = a != b;
	w = r;
	printf("!= %ld\n", w);
	r = a && b;
	w = r;
	printf("&& %ld\n", w);
	r = a || b;
	w = r;
	printf("|| %ld\n", w);
	a = (-2147483648);
	b = 1073741827;
	r = a < b;
	w = r;
	printf("< %ld\n", w);
	r = a > b;
	w = r;
	printf("> %ld\n", w);
	r = a <= b;
	w = r;
	printf("<= %ld\n", w);
	r = a >= b;
	w = r;
	printf(">= %ld\n", w);
	r = a == b;
	w = r;
	printf("== %ld\n", w);
	r = a != b;
	w = r;
	printf("!= %ld\n", w);
	r = a && b;
	w = r;
	printf("&& %ld\n", w);
	r = a || b;
	w = r;
	printf("|| %ld\n", w);
	a = (-2147483648);
	b = (-2147483648);
	r = a < b;
	w = r;
	printf("< %ld\n", w);
	r = a > b;
	w = r;
	printf("> %ld\n", w);
	r = a <= b;
	w = r;
	printf("<= %ld\n", w);
	r = a >= b;
	w = r;
	printf(">= %ld\n", w);
	r = a == b;
	w = r;
	printf("== %ld\n", w);
	r = a != b;
	w = r;
	printf("!= %ld\n", w);
	r = a && b;
	w = r;
	printf("&& %ld\n", w);
	r = a || b;
	w = r;
	printf("|| %ld\n", w);
	r = !a;
	w = r;
	printf("! %ld\n", w);
	r = a ? 3 : 4;
	w = r;
	printf("? %ld\n", w);
	a = 1073741827;
	b = 0;
	r = a < b;
	w = r;
	printf("< %ld\n", w);
	r = a > b;
	w = r;
	printf("> %ld\n", w);
	r = a <= b;
	w = r;
	printf("<= %ld\n", w);
	r = a >= b;
	w = r;
	printf(">= %ld\n", w);
	r = a == b;
	w = r;
	printf("== %ld\n", w);
	r = a != b;
	w = r;
	printf("!= %ld\n", w);
	r = a && b;
	w = r;
	printf("&& %ld\n", w);
	r = a || b;
	w = r;
	printf("|| %ld\n", w);
	a = 1073741827;
	b = 7;
	r = a < b;
	w = r;
	printf("< %ld\n", w);
	r = a > b;
	w = r;
	printf("> %ld\n", w);
	r = a <= b;
	w = r;
	printf("<= %ld\n", w);
	r = a >= b;
	w = r;
	printf(">= %ld\n", w);
	r = a == b;
	w = r;
	printf("== %ld\n", w);
	r = a != b;
	w = r;
	printf("!= %ld\n", w);
	r = a && b;
	w = r;
	printf("&& %ld\n", w);
	r = a || b;
	w = r;
	printf("|| %ld\n", w);
	a = 1073741827;
	b = (-128);
	r = a < b;
	w = r;
	printf("< %ld\n", w);
	r = a > b;
	w = r;
	printf("> %ld\n", w);
	r = a <= b;
	w = r;
	printf("<= %ld\n", w);
	r = a >= b;
	w = r;
	printf(">= %ld\n", w);
	r = a == b;
	w = r;
	printf("== %ld\n", w);
	r = a != b;
	w = r;
	printf("!= %ld\n", w);
	r = a && b;
	w = r;
	printf("&& %ld\n", w);
	r = a || b;
	w = r;
	printf("|| %ld\n", w);
	a = 1073741827;
	b = 1073741827;
	r = a < b;
	w = r;
	printf("< %ld\n", w);
	r = a > b;
	w = r;
	printf("> %ld\n", w);
	r = a <= b;
	w = r;
	printf("<= %ld\n", w);
	r = a >= b;
	w = r;
	printf(">= %ld\n", w);
	r = a == b;
	w = r;
	printf("== %ld\n", w);
	r = a != b;
	w = r;
	printf("!= %ld\n", w);
	r = a && b;
	w = r;
	printf("&& %ld\n", w);
	r = a || b;
	w = r;
	printf("|| %ld\n", w);
	a = 1073741827;
	b = 1073741827;
	r = a < b;
	w = r;
	printf("< %ld\n", w);
	r = a > b;
	w = r;
	printf("> %ld\n", w);
	r = a <= b;
	w = r;
	printf("<= %ld\n", w);
	r = a >= b;
	w = r;
	printf(">= %ld\n", w);
	r = a == b;
	w = r;
	printf("== %ld\n", w);
	r = a != b;
	w = r;
	printf("!= %ld\n", w);
	r = a && b;
	w = r;
	printf("&& %ld\n", w);
	r = a || b;
	w = r;
	printf("|| %ld\n", w);
	r = !a;
	w = r;
	printf("! %ld\n", w);
	r = a ? 3 : 4;
	w = r;
	printf("? %ld\n", w);
	return 0;
}

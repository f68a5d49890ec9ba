int printf(const char *f, ...);
int main()
{
	short a;
	short b;
	int r;
	long w;
	a = 0;
	b = 0;
	r = a < b;
	w = r;
	printf("< %ld\n", w);
	r = a > b;
	w = r;
	printf("> %ld\n", w);
	r = a <= b;
	w = r;
	printf("<= %ld\n", w);
	r = a >= b;
	w = r;
	printf(">= %ld\n", w);
	r = a == b;
	w = r;
	printf("== %ld\n", w);
	r = a != b;
	w = r;
	printf("!= %ld\n", w);
	r = a && b;
	w = r;
	printf("&& %ld\n", w);
	r = a || b;
	w = r;
	printf("|| %ld\n", w);
	a = 0;
	b = 7;
	r = a < b;
	w = r;
	printf("< %ld\n", w);
	r = a > b;
	w = r;
	printf("> %ld\n", w);
	r = a <= b;
	w = r;
	printf("<= %ld\n", w);
	r = a >= b;
	w = r;
	printf(">= %ld\n", w);
	r = a == b;
	w = r;
	printf("== %ld\n", w);
	r = a != b;
	w = r;
	printf("!= %ld\n", w);
	r = a && b;
	w = r;
	printf("&& %ld\n", w);
	r = a || b;
	w = r;
	printf("|| %ld\n", w);
	a = 0;
	b = (-128);
	r = a < b;
	w = r;
	printf("< %ld\n", w);
	r = a > b;
	w = r;
	printf("> %ld\n", w);
	r = a <= b;
	w = r;
	printf("<= %ld\n", w);
	r = a >= b;
	w = r;
	printf(">= %ld\n", w);
	r = a == b;
	w = r;
	printf("== %ld\n", w);
	r = a != b;
	w = r;
	printf("!= %ld\n", w);
	r = a && b;
	w = r;
	printf("&& %ld\n", w);
	r = a || b;
	w = r;
	printf("|| %ld\n", w);
	a = 0;
	b = 16387;
	r = a < b;
	w = r;
	printf("< %ld\n", w);
	r = a > b;
	w = r;
	printf("> %ld\n", w);
	r = a <= b;
	w = r;
	printf("<= %ld\n", w);
	r = a >= b;
	w = r;
	printf(">= %ld\n", w);
	r = a == b;
	w = r;
	printf("== %ld\n", w);
	r = a != b;
	w = r;
	printf("!= %ld\n", w);
	r = a && b;
	w = r;
	printf("&& %ld\n", w);
	r = a || b;
	w = r;
	printf("|| %ld\n", w);
	a = 0;
	b = 0;
	r = a < b;
	w = r;
	printf("< %ld\n", w);
	r = a > b;
	w = r;
	printf("> %ld\n", w);
	r = a <= b;
	w = r;
	printf("<= %ld\n", w);
	r = a >= b;
	w = r;
	printf(">= %ld\n", w);
	r = a == b;
	w = r;
	printf("== %ld\n", w);
	r = a != b;
	w = r;
	printf("!= %ld\n", w);
	r = a && b;
	w = r;
	printf("&& %ld\n", w);
	r = a || b;
	w = r;
	printf("|| %ld\n", w);
	r = !a;
	w = r;
	printf("! %ld\n", w);
	r = a ? 3 : 4;
	w = r;
	printf("? %ld\n", w);
	a = 1;
	b = 0;
	r = a < b;
	w = r;
	printf("< %ld\n", w);
	r = a > b;
	w = r;
	printf("> %ld\n", w);
	r = a <= b;
	w = r;
	printf("<= %ld\n", w);
	r = a >= b;
	w = r;
	printf(">= %ld\n", w);
	r = a == b;
	w = r;
	printf("== %ld\n", w);
	r = a != b;
	w = r;
	printf("!= %ld\n", w);
	r = a && b;
	w = r;
	printf("&& %ld\n", w);
	r = a || b;
	w = r;
	printf("|| %ld\n", w);
	a = 1;
	b = 7;
	r = a < b;
	w = r;
	printf("< %ld\n", w);
	r = a > b;
	w = r;
	printf("> %ld\n", w);
	r = a <= b;
	w = r;
	printf("<= %ld\n", w);
	r = a >= b;
	w = r;
	printf(">= %ld\n", w);
	r = a == b;
	w = r;
	printf("== %ld\n", w);
	r = a != b;
	w = r;
	printf("!= %ld\n", w);
	r = a && b;
	w = r;
	printf("&& %ld\n", w);
	r = a || b;
	w = r;
	printf("|| %ld\n", w);
	a = 1;
	b = (-128);
	r = a < b;
	w = r;
	printf("< %ld\n", w);
	r = a > b;
	w = r;
	printf("> %ld\n", w);
	r = a <= b;
	w = r;
	printf("<= %ld\n", w);
	r = a >= b;
	w = r;
	printf(">= %ld\n", w);
	r = a == b;
	w = r;
	printf("== %ld\n", w);
	r = a != b;
	w = r;
	printf("!= %ld\n", w);
	r = a && b;
	w = r;
	printf("&& %ld\n", w);
	r = a || b;
	w = r;
	printf("|| %ld\n", w);
	a = 1;
	b = 16387;
	r = a < b;
	w = r;
	printf("< %ld\n", w);
	r = a > b;
	w = r;
	printf("> %ld\n", w);
	r = a <= b;
	w = r;
	printf("<= %ld\n", w);
	r = a >= b;
	w = r;
	printf(">= %ld\n", w);
	r = a == b;
	w = r;
	printf("== %ld\n", w);
	r = a != b;
	w = r;
	printf("!= %ld\n", w);
	r = a && b;
	w = r;
	printf("&& %ld\n", w);
	r = a || b;
	w = r;
	printf("|| %ld\n", w);
	a = 1;
	b = 1;
	r = a < b;
	w = r;
	printf("< %ld\n", w);
	r = a > b;
	w = r;
	printf("> %ld\n", w);
	r = a <= b;
	w = r;
	printf("<= %ld\n", w);
	r = a >= b;
	w = r;
	printf(">= %ld\n", w);
	r = a == b;
	w = r;
	printf("== %ld\n", w);
	r = a != b;
	w = r;
	printf("!= %ld\n", w);
	r = a && b;
	w = r;
	printf("&& %ld\n", w);
	r = a || b;
	w = r;
	printf("|| %ld\n", w);
	r = !a;
	w = r;
	printf("! %ld\n", w);
	r = a ? 3 : 4;
	w = r;
	printf("? %ld\n", w);
	a = (-1);
	b = 0;
	r = a < b;
	w = r;
	printf("< %ld\n", w);
	r = a > b;
	w = r;
	printf("> %ld\n", w);
	r = a <= b;
	w = r;
	printf("<= %ld\n", w);
	r = a >= b;
	w = r;
	printf(">= %ld\n", w);
	r = a == b;
	w = r;
	printf("== %ld\n", w);
	r = a != b;
	w = r;
	printf("!= %ld\n", w);
	r = a && b;
	w = r;
	printf("&& %ld\n", w);
	r = a || b;
	w = r;
	printf("|| %ld\n", w);
	a = (-1);
	b = 7;
	r = a < b;
	w = r;
	printf("< %ld\n", w);
	r = a > b;
	w = r;
	printf("> %ld\n", w);
	r = a <= b;
	w = r;
	printf("<= %ld\n", w);
	r = a >= b;
	w = r;
	printf(">= %ld\n", w);
	r = a == b;
	w = r;
	printf("== %ld\n", w);
	r = a != b;
	w = r;
	printf("!= %ld\n", w);
	r = a && b;
	w = r;
	printf("&& %ld\n", w);
	r = a || b;
	w = r;
	printf("|| %ld\n", w);
	a = (-1);
	b = (-128);
	r = a < b;
	w = r;
	printf("< %ld\n", w);
	r = a > b;
	w = r;
	printf("> %ld\n", w);
	r = a <= b;
	w = r;
	printf("<= %ld\n", w);
	r = a >= b;
	w = r;
	printf(">= %ld\n", w);
	r = a == b;
	w = r;
	printf("== %ld\n", w);
	r = a != b;
	w = r;
	printf("!= %ld\n", w);
	r = a && b;
	w = r;
	printf("&& %ld\n", w);
	r = a || b;
	w = r;
	printf("|| %ld\n", w);
	a = (-1);
	b = 16387;
	r = a < b;
	w = r;
	printf("< %ld\n", w);
	r = a > b;
	w = r;
	printf("> %ld\n", w);
	r = a <= b;
	w = r;
	printf("<= %ld\n", w);
	r = a >= b;
	w = r;
	printf(">= %ld\n", w);
	r = a == b;
	w = r;
	printf("== %ld\n", w);
	r = a != b;
	w = r;
	printf("!= %ld\n", w);
	r = a && b;
	w = r;
	printf("&& %ld\n", w);
	r = a || b;
	w = r;
	printf("|| %ld\n", w);
	a = (-1);
	b = (-1);
	r = a < b;
	w = r;
	printf("< %ld\n", w);
	r = a > b;
	w = r;
	printf("> %ld\n", w);
	r = a <= b;
	w = r;
	printf("<= %ld\n", w);
	r = a >= b;
	w = r;
	printf(">= %ld\n", w);
	r = a == b;
	w = r;
	printf("== %ld\n", w);
	r = a != b;
	w = r;
	printf("!= %ld\n", w);
	r = a && b;
	w = r;
	printf("&& %ld\n", w);
	r = a || b;
	w = r;
	printf("|| %ld\n", w);
	r = !a;
	w = r;
	printf("! %ld\n", w);
	r = a ? 3 : 4;
	w = r;
	printf("? %ld\n", w);
	a = 7;
	b = 0;
	r = a < b;
	w = r;
	printf("< %ld\n", w);
	r = a > b;
	w = r;
	printf("> %ld\n", w);
	r = a <= b;
	w = r;
	printf("<= %ld\n", w);
	r = a >= b;
	w = r;
	printf(">= %ld\n", w);
	r = a == b;
	w = r;
	printf("== %ld\n", w);
	r = a != b;
	w = r;
	printf("!= %ld\n", w);
	r = a && b;
	w = r;
	printf("&& %ld\n", w);
	r = a || b;
	w = r;
	printf("|| %ld\n", w);
	a = 7;
	b = 7;
	r = a < b;
	w = r;
	printf("< %ld\n", w);
	r = a > b;
	w = r;
	printf("> %ld\n", w);
	r = a <= b;
	w = r;
	printf("<= %ld\n", w);
	r = a >= b;
	w = r;
	printf(">= %ld\n", w);
	r = a == b;
	w = r;
	printf("== %ld\n", w);
	r = a != b;
	w = r;
	printf("!= %ld\n", w);
	r = a && b;
	w = r;
	printf("&& %ld\n", w);
	r = a || b;
	w = r;
	printf("|| %ld\n", w);
	a = 7;
	b = (-128);
	r = a < b;
	w = r;
	printf("< %ld\n", w);
	r = a > b;
	w = r;
	printf("> %ld\n", w);
	r = a <= b;
	w = r;
	printf("<= %ld\n", w);
	r = a >= b;
	w = r;
	printf(">= %ld\n", w);
	r = a == b;
	w = r;
	printf("== %ld\n", w);
	r = a != b;
	w = r;
	printf("!= %ld\n", w);
	r = a && b;
	w = r;
	printf("&& %ld\n", w);
	r = a || b;
	w = r;
	printf("|| %ld\n", w);
	a = 7;
	b = 16387;
	r = a < b;
	w = r;
	printf("< %ld\n", w);
	r = a > b;
	w = r;
	printf("> %ld\n", w);
	r = a <= b;
	w = r;
	printf("<= %ld\n", w);
	r = a >= b;
	w = r;
	printf(">= %ld\n", w);
	r = a == b;
	w = r;
	printf("== %ld\n", w);
	r = a != b;
	w = r;
	printf("!= %ld\n", w);
	r = a && b;
	w = r;
	printf("&& %ld\n", w);
	r = a || b;
	w = r;
	printf("|| %ld\n", w);
	a = 7;
	b = 7;
	r = a < b;
	w = r;
	printf("< %ld\n", w);
	r = a > b;
	w = r;
	printf("> %ld\n", w);
	r = a <= b;
	w = r;
	printf("<= %ld\n", w);
	r = a >= b;
	w = r;
	printf(">= %ld\n", w);
	r = a == b;
	w = r;
	printf("== %ld\n", w);
	r = a != b;
	w = r;
	printf("!= %ld\n", w);
	r = a && b;
	w = r;
	printf("&& %ld\n", w);
	r = a || b;
	w = r;
	printf("|| %ld\n", w);
	r = !a;
	w = r;
	printf("! %ld\n", w);
	r = a ? 3 : 4;
	w = r;
	printf("? %ld\n", w);
	a = (-7);
	b = 0;
	r = a < b;
	w = r;
	printf("< %ld\n", w);
	r = a > b;
	w = r;
	printf("> %ld\n", w);
	r = a <= b;
	w = r;
	printf("<= %ld\n", w);
	r = a >= b;
	w = r;
	printf(">= %ld\n", w);
	r = a == b;
	w = r;
	printf("== %ld\n", w);
	r = a != b;
	w = r;
	printf("!= %ld\n", w);
	r = a && b;
	w = r;
	printf("&& %ld\n", w);
	r = a || b;
	w = r;
	printf("|| %ld\n", w);
	a = (-7);
	b = 7;
	r = a < b;
	w = r;
	printf("< %ld\n", w);
	r = a > b;
	w = r;
	printf("> %ld\n", w);
	r = a <= b;
	w = r;
	printf("<= %ld\n", w);
	r = a >= b;
	w = r;
	printf(">= %ld\n", w);
	r = a == b;
	w = r;
	printf("== %ld\n", w);
	r = a != b;
	w = r;
	printf("!= %ld\n", w);
	r = a && b;
	w = r;
	printf("&& %ld\n", w);
	r = a || b;
	w = r;
	printf("|| %ld\n", w);
	a = (-7);
	b = (-128);
	r = a < b;
	w = r;
	printf("< %ld\n", w);
	r = a > b;
	w = r;
	printf("> %ld\n", w);
	r = a <= b;
	w = r;
	printf("<= %ld\n", w);
	r = a >= b;
	w = r;
	printf(">= %ld\n", w);
	r = a == b;
	w = r;
	printf("== %ld\n", w);
	r = a != b;
	w = r;
	printf("!= %ld\n", w);
	r = a && b;
	w = r;
	printf("&& %ld\n", w);
	r = a || b;
	w = r;
	printf("|| %ld\n", w);
	a = (-7);
	b = 16387;
	r = a < b;
	w = r;
	printf("< %ld\n", w);
	r = a > b;
	w = r;
	printf("> %ld\n", w);
	r = a <= b;
	w = r;
	printf("<= %ld\n", w);
	r = a >= b;
	w = r;
	printf(">= %ld\n", w);
	r = a == b;
	w = r;
	printf("== %ld\n", w);
	r = a != b;
	w = r;
	printf("!= %ld\n", w);
	r = a && b;
	w = r;
	printf("&& %ld\n", w);
	r = a || b;
	w = r;
	printf("|| %ld\n", w);
	a = (-7);
	b = (-7);
	r = a < b;
	w = r;
	printf("< %ld\n", w);
	r = a > b;
	w = r;
	printf("> %ld\n", w);
	r = a <= b;
	w = r;
	printf("<= %ld\n", w);
	r = a >= b;
	w = r;
	printf(">= %ld\n", w);
	r = a == b;
	w = r;
	printf("== %ld\n", w);
	r = a != b;
	w = r;
	printf("!= %ld\n", w);
	r = a && b;
	w = r;
	printf("&& %ld\n", w);
	r = a || b;
	w = r;
	printf("|| %ld\n", w);
	r = !a;
	w = r;
	printf("! %ld\n", w);
	r = a ? 3 : 4;
	w = r;
	printf("? %ld\n", w);
	a = 100;
	b = 0;
	r = a < b;
	w = r;
	printf("< %ld\n", w);
	r = a > b;
	w = r;
	printf("> %ld\n", w);
	r = a <= b;
	w = r;
	printf("<= %ld\n", w);
	r = a >= b;
	w = r;
	printf(">= %ld\n", w);
	r = a == b;
	w = r;
	printf("== %ld\n", w);
	r = a != b;
	w = r;
	printf("!= %ld\n", w);
	r = a && b;
	w = r;
	printf("&& %ld\n", w);
	r = a || b;
	w = r;
	printf("|| %ld\n", w);
	a = 100;
	b = 7;
	r = a < b;
	w = r;
	printf("< %ld\n", w);
	r = a > b;
	w = r;
	printf("> %ld\n", w);
	r = a <= b;
	w = r;
	printf("<= %ld\n", w);
	r = a >= b;
	w = r;
	printf(">= %ld\n", w);
	r = a == b;
	w = r;
	printf("== %ld\n", w);
	r = a != b;
	w = r;
	printf("!= %ld\n", w);
	r = a && b;
	w = r;
	printf("&& %ld\n", w);
	r = a || b;
	w = r;
	printf("|| %ld\n", w);
	a = 100;
	b = (-128);
	r = a < b;
	w = r;
	printf("< %ld\n", w);
	r = a > b;
	w = r;
	printf("> %ld\n", w);
	r = a <= b;
	w = r;
	printf("<= %ld\n", w);
	r = a >= b;
	w = r;
	printf(">= %ld\n", w);
	r = a == b;
	w = r;
	printf("== %ld\n", w);
	r = a != b;
	w = r;
	printf("!= %ld\n", w);
	r = a && b;
	w = r;
	printf("&& %ld\n", w);
	r = a || b;
	w = r;
	printf("|| %ld\n", w);
	a = 100;
	b = 16387;
	r = a < b;
	w = r;
	printf("< %ld\n", w);
	r = a > b;
	w = r;
	printf("> %ld\n", w);
	r = a <= b;
	w = r;
	printf("<= %ld\n", w);
	r = a >= b;
	w = r;
	printf(">= %ld\n", w);
	r = a == b;
	w = r;
	printf("== %ld\n", w);
	r = a != b;
	w = r;
	printf("!= %ld\n", w);
	r = a && b;
	w = r;
	printf("&& %ld\n", w);
	r = a || b;
	w = r;
	printf("|| %ld\n", w);
	a = 100;
	b = 100;
	r = a < b;
	w = r;
	printf("< %ld\n", w);
	r = a > b;
	w = r;
	printf("> %ld\n", w);
	r = a <= b;
	w = r;
	printf("<= %ld\n", w);
	r = a >= b;
	w = r;
	printf(">= %ld\n", w);
	r = a == b;
	w = r;
	printf("== %ld\n", w);
	r = a != b;
	w = r;
	printf("!= %ld\n", w);
	r = a && b;
	w = r;
	printf("&& %ld\n", w);
	r = a || b;
	w = r;
	printf("|| %ld\n", w);
	r = !a;
	w = r;
	printf("! %ld\n", w);
	r = a ? 3 : 4;
	w = r;
	printf("? %ld\n", w);
	a = (-128);
	b = 0;
	r = a < b;
	w = r;
	printf("< %ld\n", w);
	r = a > b;
	w = r;
	printf("> %ld\n", w);
	r = a <= b;
	w = r;
	printf("<= %ld\n", w);
	r = a >= b;
	w = r;
	printf(">= %ld\n", w);
	r = a == b;
	w = r;
	printf("== %ld\n", w);
	r = a != b;
	w = r;
	printf("!= %ld\n", w);
	r = a && b;
	w = r;
	printf("&& %ld\n", w);
	r = a || b;
	w = r;
	printf("|| %ld\n", w);
	a = (-128);
	b = 7;
	r = a < b;
	w = r;
	printf("< %ld\n", w);
	r = a > b;
	w = r;
	printf("> %ld\n", w);
	r = a <= b;
	w = r;
	printf("<= %ld\n", w);
	r = a >= b;
	w = r;
	printf(">= %ld\n", w);
	r = a == b;
	w = r;
	printf("== %ld\n", w);
	r = a != b;
	w = r;
	printf("!= %ld\n", w);
	r = a && b;
	w = r;
	printf("&& %ld\n", w);
	r = a || b;
	w = r;
	printf("|| %ld\n", w);
	a = (-128);
	b = (-128);
	r = a < b;
	w = r;
	printf("< %ld\n", w);
	r = a > b;
	w = r;
	printf("> %ld\n", w);
	r = a <= b;
	w = r;
	printf("<= %ld\n", w);
	r = a >= b;
	w = r;
	printf(">= %ld\n", w);
	r = a == b;
	w = r;
	printf("== %ld\n", w);
	r = a != b;
	w = r;
	printf("!= %ld\n", w);
	r = a && b;
	w = r;
	printf("&& %ld\n", w);
	r = a || b;
	w = r;
	printf("|| %ld\n", w);
	a = (-128);
	b = 16387;
	r = a < b;
	w = r;
	printf("< %ld\n", w);
	r = a > b;
	w = r;
	printf("> %ld\n", w);
	r = a <= b;
	w = r;
	printf("<= %ld\n", w);
	r = a >= b;
	w = r;
	printf(">= %ld\n", w);
	r = a == b;
	w = r;
	printf("== %ld\n", w);
	r = a != b;
	w = r;
	printf("!= %ld\n", w);
	r = a && b;
	w = r;
	printf("&& %ld\n", w);
	r = a || b;
	w = r;
	printf("|| %ld\n", w);
	a = (-128);
	b = (-128);
	r = a < b;
	w = r;
	printf("< %ld\n", w);
	r = a > b;
	w = r;
	printf("> %ld\n", w);
	r = a <= b;
	w = r;
	printf("<= %ld\n", w);
	r = a >= b;
	w = r;
	printf(">= %ld\n", w);
	r = a == b;
	w = r;
	printf("== %ld\n", w);
	r = a != b;
	w = r;
	printf("!= %ld\n", w);
	r = a && b;
	w = r;
	printf("&& %ld\n", w);
	r = a || b;
	w = r;
	printf("|| %ld\n", w);
	r = !a;
	w = r;
	printf("! %ld\n", w);
	r = a ? 3 : 4;
	w = r;
	printf("? %ld\n", w);
	a = 32767;
	b = 0;
	r = a < b;
	w = r;
	printf("< %ld\n", w);
	r = a > b;
	w = r;
	printf("> %ld\n", w);
	r = a <= b;
	w = r;
	printf("<= %ld\n", w);
	r = a >= b;
	w = r;
	printf(">= %ld\n", w);
	r = a == b;
	w = r;
	printf("== %ld\n", w);
	r = a != b;
	w = r;
	printf("!= %ld\n", w);
	r = a && b;
	w = r;
	printf("&& %ld\n", w);
	r = a || b;
	w = r;
	printf("|| %ld\n", w);
	a = 32767;
	b = 7;
	r = a < b;
	w = r;
	printf("< %ld\n", w);
	r = a > b;
	w = r;
	printf("> %ld\n", w);
	r = a <= b;
	w = r;
	printf("<= %ld\n", w);
	r = a >= b;
	w = r;
	printf(">= %ld\n", w);
	r = a == b;
	w = r;
	printf("== %ld\n", w);
	r = a != b;
	w = r;
	printf("!= %ld\n", w);
	r = a && b;
	w = r;
	printf("&& %ld\n", w);
	r = a || b;
	w = r;
	printf("|| %ld\n", w);
	a = 32767;
	b = (-128);
	r = a < b;
	w = r;
	printf("< %ld\n", w);
	r = a > b;
	w = r;
	printf("> %ld\n", w);
	r = a <= b;
	w = r;
	printf("<= %ld\n", w);
	r = a >= b;
	w = r;
	printf(">= %ld\n", w);
	r = a == b;
	w = r;
	printf("== %ld\n", w);
	r = a != b;
	w = r;
	printf("!= %ld\n", w);
	r = a && b;
	w = r;
	printf("&& %ld\n", w);
	r = a || b;
	w = r;
	printf("|| %ld\n", w);
	a = 32767;
	b = 16387;
	r = a < b;
	w = r;
	printf("< %ld\n", w);
	r = a > b;
	w = r;
	printf("> %ld\n", w);
	r = a <= b;
	w = r;
	printf("<= %ld\n", w);
	r = a >= b;
	w = r;
	printf(">= %ld\n", w);
	r = a == b;
	w = r;
	printf("== %ld\n", w);
	r = a != b;
	w = r;
	printf("!= %ld\n", w);
	r = a && b;
	w = r;
	printf("&& %ld\n", w);
	r = a || b;
	w = r;
	printf("|| %ld\n", w);
	a = 32767;
	b = 32767;
	r = a < b;
	w = r;
	printf("< %ld\n", w);
	r = a > b;
	w = r;
	printf("> %ld\n", w);
	r = a <= b;
	w = r;
	printf("<= %ld\n", w);
	r = a >= b;
	w = r;
	printf(">= %ld\n", w);
	r = a == b;
	w = r;
	printf("== %ld\n", w);
	r = a != b;
	w = r;
	printf("!= %ld\n", w);
	r = a && b;
	w = r;
	printf("&& %ld\n", w);
	r = a || b;
	w = r;
	printf("|| %ld\n", w);
	r = !a;
	w = r;
	printf("! %ld\n", w);
	r = a ? 3 : 4;
	w = r;
	printf("? %ld\n", w);
	a = (-32768);
	b = 0;
	r = a < b;
	w = r;
	printf("< %ld\n", w);
	r = a > b;
	w = r;
	printf("> %ld\n", w);
	r = a <= b;
	w = r;
	printf("<= %ld\n", w);
	r = a >= b;
	w = r;
	printf(">= %ld\n", w);
	r = a == b;
	w = r;
	printf("== %ld\n", w);
	r = a != b;
	w = r;
	printf("!= %ld\n", w);
	r = a && b;
	w = r;
	printf("&& %ld\n", w);
	r = a || b;
	w = r;
	printf("|| %ld\n", w);
	a = (-32768);
	b = 7;
	r = a < b;
	w = r;
	printf("< %ld\n", w);
	r = a > b;
	w = r;
	printf("> %ld\n", w);
	r = a <= b;
	w = r;
	printf("<= %ld\n", w);
	r = a >= b;
	w = r;
	printf(">= %ld\n", w);
	r = a == b;
	w = r;
	printf("== %ld\n", w);
	r = a != b;
	w = r;
	printf("!= %ld\n", w);
	r = a && b;
	w = r;
	printf("&& %ld\n", w);
	r = a || b;
	w = r;
	printf("|| %ld\n", w);
	a = (-32768);
	b = (-128);
	r = a < b;
	w = r;
	printf("< %ld\n", w);
	r = a > b;
	w = r;
	printf("> %ld\n", w);
	r = a <= b;
	w = r;
	printf("<= %ld\n", w);
	r = a >= b;
	w = r;
	printf(">= %ld\n", w);
	r = a == b;
	w = r;
	printf("== %ld\n", w);
	r = a != b;
	w = r;
	printf("!= %ld\n", w);
	r = a && b;
	w = r;
	printf("&& %ld\n", w);
	r = a || b;
	w = r;
	printf("|| %ld\n", w);
	a = (-32768);
	b = 16387;
	r = a < b;
	w = r;
	printf("< %ld\n", w);
	r = a > b;
	w = r;
	printf("> %ld\n", w);
	r = a <= b;
	w = r;
	printf("<= %ld\n", w);
	r = a >= b;
	w = r;
	printf(">= %ld\n", w);
	r = a == b;
	w = r;
	printf("== %ld\n", w);
	r = a != b;
	w = r;
	printf("!= %ld\n", w);
	r = a && b;
	w = r;
	printf("&& %ld\n", w);
	r = a || b;
	w = r;
	printf("|| %ld\n", w);
	a = (-32768);
	b = (-32768);
	r = a < b;
	w = r;
	printf("< %ld\n", w);
	r = a > b;
	w = r;
	printf("> %ld\n", w);
	r = a <= b;
	w = r;
	printf("<= %ld\n", w);
	r = a >= b;
	w = r;
	printf(">= %ld\n", w);
	r = a == b;
	w = r;
	printf("== %ld\n", w);
	r = a != b;
	w = r;
	printf("!= %ld\n", w);
	r = a && b;
	w = r;
	printf("&& %ld\n", w);
	r = a || b;
	w = r;
	printf("|| %ld\n", w);
	r = !a;
	w = r;
	printf("! %ld\n", w);
	r = a ? 3 : 4;
	w = r;
	printf("? %ld\n", w);
	a = 16387;
	b = 0;
	r = a < b;
	w = r;
	printf("< %ld\n", w);
	r = a > b;
	w = r;
	printf("> %ld\n", w);
	r = a <= b;
	w = r;
	printf("<= %ld\n", w);
	r = a >= b;
	w = r;
	printf(">= %ld\n", w);
	r = a == b;
	w = r;
	printf("== %ld\n", w);
	r = a != b;
	w = r;
	printf("!= %ld\n", w);
	r = a && b;
	w = r;
	printf("&& %ld\n", w);
	r = a || b;
	w = r;
	printf("|| %ld\n", w);
	a = 16387;
	b = 7;
	r = a < b;
	w = r;
	printf("< %ld\n", w);
	r = a > b;
	w = r;
	printf("> %ld\n", w);
	r = a <= b;
	w = r;
	printf("<= %ld\n", w);
	r = a >= b;
	w = r;
	printf(">= %ld\n", w);
	r = a == b;
	w = r;
	printf("== %ld\n", w);
	r = a != b;
	w = r;
	printf("!= %ld\n", w);
	r = a && b;
	w = r;
	printf("&& %ld\n", w);
	r = a || b;
	w = r;
	printf("|| %ld\n", w);
	a = 16387;
	b = (-128);
	r = a < b;
	w = r;
	printf("< %ld\n", w);
	r = a > b;
	w = r;
	printf("> %ld\n", w);
	r = a <= b;
	w = r;
	printf("<= %ld\n", w);
	r = a >= b;
	w = r;
	printf(">= %ld\n", w);
	r = a == b;
	w = r;
	printf("== %ld\n", w);
	r = a != b;
	w = r;
	printf("!= %ld\n", w);
	r = a && b;
	w = r;
	printf("&& %ld\n", w);
	r = a || b;
	w = r;
	printf("|| %ld\n", w);
	a = 16387;
	b = 16387;
	r = a < b;
	w = r;
	printf("< %ld\n", w);
	r = a > b;
	w = r;
	printf("> %ld\n", w);
	r = a <= b;
	w = r;
	printf("<= %ld\n", w);
	r = a >= b;
	w = r;
	printf(">= %ld\n", w);
	r = a == b;
	w = r;
	printf("== %ld\n", w);
	r = a != b;
	w = r;
	printf("!= %ld\n", w);
	r = a && b;
	w = r;
	printf("&& %ld\n", w);
	r = a || b;
	w = r;
	printf("|| %ld\n", w);
	a = 16387;
	b = 16387;
	r = a < b;
	w = r;
	printf("< %ld\n", w);
	r = a > b;
	w = r;
	printf("> %ld\n", w);
	r = a <= b;
	w = r;
	printf("<= %ld\n", w);
	r = a >= b;
	w = r;
	printf(">= %ld\n", w);
	r = a == b;
	w = r;
	printf("== %ld\n", w);
	r = a != b;
	w = r;
	printf("!= %ld\n", w);
	r = a && b;
	w = r;
	printf("&& %ld\n", w);
	r = a || b;
	w = r;
	printf("|| %ld\n", w);
	r = !a;
	w = r;
	printf("! %ld\n", w);
	r = a ? 3 : 4;
	w = r;
	printf("? %ld\n", w);
	return 0;
}

int printf(const char *f, ...);
int main()
{
	char a;
	char b;
	int r;
	long w;
	a = 0;
	b = 0;
	r = a < b;
	w = r;
	printf("< %ld\n", w);
	r = a > b;
	w = r;
	printf("> %ld\n", w);
	r = a <= b;
	w = r;
	printf("<= %ld\n", w);
	r = a >= b;
	w = r;
	printf(">= %ld\n", w);
	r = a == b;
	w = r;
	printf("== %ld\n", w);
	r = a != b;
	w = r;
	printf("!= %ld\n", w);
	r = a && b;
	w = r;
	printf("&& %ld\n", w);
	r = a || b;
	w = r;
	printf("|| %ld\n", w);
	a = 0;
	b = 7;
	r = a < b;
	w = r;
	printf("< %ld\n", w);
	r = a > b;
	w = r;
	printf("> %ld\n", w);
	r = a <= b;
	w = r;
	printf("<= %ld\n", w);
	r = a >= b;
	w = r;
	printf(">= %ld\n", w);
	r = a == b;
	w = r;
	printf("== %ld\n", w);
	r = a != b;
	w = r;
	printf("!= %ld\n", w);
	r = a && b;
	w = r;
	printf("&& %ld\n", w);
	r = a || b;
	w = r;
	printf("|| %ld\n", w);
	a = 0;
	b = (-128);
	r = a < b;
	w = r;
	printf("< %ld\n", w);
	r = a > b;
	w = r;
	printf("> %ld\n", w);
	r = a <= b;
	w = r;
	printf("<= %ld\n", w);
	r = a >= b;
	w = r;
	printf(">= %ld\n", w);
	r = a == b;
	w = r;
	printf("== %ld\n", w);
	r = a != b;
	w = r;
	printf("!= %ld\n", w);
	r = a && b;
	w = r;
	printf("&& %ld\n", w);
	r = a || b;
	w = r;
	printf("|| %ld\n", w);
	a = 0;
	b = 67;
	r = a < b;
	w = r;
	printf("< %ld\n", w);
	r = a > b;
	w = r;
	printf("> %ld\n", w);
	r = a <= b;
	w = r;
	printf("<= %ld\n", w);
	r = a >= b;
	w = r;
	printf(">= %ld\n", w);
	r = a == b;
	w = r;
	printf("== %ld\n", w);
	r = a != b;
	w = r;
	printf("!= %ld\n", w);
	r = a && b;
	w = r;
	printf("&& %ld\n", w);
	r = a || b;
	w = r;
	printf("|| %ld\n", w);
	a = 0;
	b = 0;
	r = a < b;
	w = r;
	printf("< %ld\n", w);
	r = a > b;
	w = r;
	printf("> %ld\n", w);
	r = a <= b;
	w = r;
	printf("<= %ld\n", w);
	r = a >= b;
	w = r;
	printf(">= %ld\n", w);
	r = a == b;
	w = r;
	printf("== %ld\n", w);
	r = a != b;
	w = r;
	printf("!= %ld\n", w);
	r = a && b;
	w = r;
	printf("&& %ld\n", w);
	r = a || b;
	w = r;
	printf("|| %ld\n", w);
	r = !a;
	w = r;
	printf("! %ld\n", w);
	r = a ? 3 : 4;
	w = r;
	printf("? %ld\n", w);
	a = 1;
	b = 0;
	r = a < b;
	w = r;
	printf("< %ld\n", w);
	r = a > b;
	w = r;
	printf("> %ld\n", w);
	r = a <= b;
	w = r;
	printf("<= %ld\n", w);
	r = a >= b;
	w = r;
	printf(">= %ld\n", w);
	r = a == b;
	w = r;
	printf("== %ld\n", w);
	r = a != b;
	w = r;
	printf("!= %ld\n", w);
	r = a && b;
	w = r;
	printf("&& %ld\n", w);
	r = a || b;
	w = r;
	printf("|| %ld\n", w);
	a = 1;
	b = 7;
	r = a < b;
	w = r;
	printf("< %ld\n", w);
	r = a > b;
	w = r;
	printf("> %ld\n", w);
	r = a <= b;
	w = r;
	printf("<= %ld\n", w);
	r = a >= b;
	w = r;
	printf(">= %ld\n", w);
	r = a == b;
	w = r;
	printf("== %ld\n", w);
	r = a != b;
	w = r;
	printf("!= %ld\n", w);
	r = a && b;
	w = r;
	printf("&& %ld\n", w);
	r = a || b;
	w = r;
	printf("|| %ld\n", w);
	a = 1;
	b = (-128);
	r = a < b;
	w = r;
	printf("< %ld\n", w);
	r = a > b;
	w = r;
	printf("> %ld\n", w);
	r = a <= b;
	w = r;
	printf("<= %ld\n", w);
	r = a >= b;
	w = r;
	printf(">= %ld\n", w);
	r = a == b;
	w = r;
	printf("== %ld\n", w);
	r = a != b;
	w = r;
	printf("!= %ld\n", w);
	r = a && b;
	w = r;
	printf("&& %ld\n", w);
	r = a || b;
	w = r;
	printf("|| %ld\n", w);
	a = 1;
	b = 67;
	r = a < b;
	w = r;
	printf("< %ld\n", w);
	r = a > b;
	w = r;
	printf("> %ld\n", w);
	r = a <= b;
	w = r;
	printf("<= %ld\n", w);
	r = a >= b;
	w = r;
	printf(">= %ld\n", w);
	r = a == b;
	w = r;
	printf("== %ld\n", w);
	r = a != b;
	w = r;
	printf("!= %ld\n", w);
	r = a && b;
	w = r;
	printf("&& %ld\n", w);
	r = a || b;
	w = r;
	printf("|| %ld\n", w);
	a = 1;
	b = 1;
	r = a < b;
	w = r;
	printf("< %ld\n", w);
	r = a > b;
	w = r;
	printf("> %ld\n", w);
	r = a <= b;
	w = r;
	printf("<= %ld\n", w);
	r = a >= b;
	w = r;
	printf(">= %ld\n", w);
	r = a == b;
	w = r;
	printf("== %ld\n", w);
	r = a != b;
	w = r;
	printf("!= %ld\n", w);
	r = a && b;
	w = r;
	printf("&& %ld\n", w);
	r = a || b;
	w = r;
	printf("|| %ld\n", w);
	r = !a;
	w = r;
	printf("! %ld\n", w);
	r = a ? 3 : 4;
	w = r;
	printf("? %ld\n", w);
	a = (-1);
	b = 0;
	r = a < b;
	w = r;
	printf("< %ld\n", w);
	r = a > b;
	w = r;
	printf("> %ld\n", w);
	r = a <= b;
	w = r;
	printf("<= %ld\n", w);
	r = a >= b;
	w = r;
	printf(">= %ld\n", w);
	r = a == b;
	w = r;
	printf("== %ld\n", w);
	r = a != b;
	w = r;
	printf("!= %ld\n", w);
	r = a && b;
	w = r;
	printf("&& %ld\n", w);
	r = a || b;
	w = r;
	printf("|| %ld\n", w);
	a = (-1);
	b = 7;
	r = a < b;
	w = r;
	printf("< %ld\n", w);
	r = a > b;
	w = r;
	printf("> %ld\n", w);
	r = a <= b;
	w = r;
	printf("<= %ld\n", w);
	r = a >= b;
	w = r;
	printf(">= %ld\n", w);
	r = a == b;
	w = r;
	printf("== %ld\n", w);
	r = a != b;
	w = r;
	printf("!= %ld\n", w);
	r = a && b;
	w = r;
	printf("&& %ld\n", w);
	r = a || b;
	w = r;
	printf("|| %ld\n", w);
	a = (-1);
	b = (-128);
	r = a < b;
	w = r;
	printf("< %ld\n", w);
	r = a > b;
	w = r;
	printf("> %ld\n", w);
	r = a <= b;
	w = r;
	printf("<= %ld\n", w);
	r = a >= b;
	w = r;
	printf(">= %ld\n", w);
	r = a == b;
	w = r;
	printf("== %ld\n", w);
	r = a != b;
	w = r;
	printf("!= %ld\n", w);
	r = a && b;
	w = r;
	printf("&& %ld\n", w);
	r = a || b;
	w = r;
	printf("|| %ld\n", w);
	a = (-1);
	b = 67;
	r = a < b;
	w = r;
	printf("< %ld\n", w);
	r = a > b;
	w = r;
	printf("> %ld\n", w);
	r = a <= b;
	w = r;
	printf("<= %ld\n", w);
	r = a >= b;
	w = r;
	printf(">= %ld\n", w);
	r = a == b;
	w = r;
	printf("== %ld\n", w);
	r = a != b;
	w = r;
	printf("!= %ld\n", w);
	r = a && b;
	w = r;
	printf("&& %ld\n", w);
	r = a || b;
	w = r;
	printf("|| %ld\n", w);
	a = (-1);
	b = (-1);
	r = a < b;
	w = r;
	printf("< %ld\n", w);
	r = a > b;
	w = r;
	printf("> %ld\n", w);
	r = a <= b;
	w = r;
	printf("<= %ld\n", w);
	r = a >= b;
	w = r;
	printf(">= %ld\n", w);
	r = a == b;
	w = r;
	printf("== %ld\n", w);
	r = a != b;
	w = r;
	printf("!= %ld\n", w);
	r = a && b;
	w = r;
	printf("&& %ld\n", w);
	r = a || b;
	w = r;
	printf("|| %ld\n", w);
	r = !a;
	w = r;
	printf("! %ld\n", w);
	r = a ? 3 : 4;
	w = r;
	printf("? %ld\n", w);
	a = 7;
	b = 0;
	r = a < b;
	w = r;
	printf("< %ld\n", w);
	r = a > b;
	w = r;
	printf("> %ld\n", w);
	r = a <= b;
	w = r;
	printf("<= %ld\n", w);
	r = a >= b;
	w = r;
	printf(">= %ld\n", w);
	r = a == b;
	w = r;
	printf("== %ld\n", w);
	r = a != b;
	w = r;
	printf("!= %ld\n", w);
	r = a && b;
	w = r;
	printf("&& %ld\n", w);
	r = a || b;
	w = r;
	printf("|| %ld\n", w);
	a = 7;
	b = 7;
	r = a < b;
	w = r;
	printf("< %ld\n", w);
	r = a > b;
	w = r;
	printf("> %ld\n", w);
	r = a <= b;
	w = r;
	printf("<= %ld\n", w);
	r = a >= b;
	w = r;
	printf(">= %ld\n", w);
	r = a == b;
	w = r;
	printf("== %ld\n", w);
	r = a != b;
	w = r;
	printf("!= %ld\n", w);
	r = a && b;
	w = r;
	printf("&& %ld\n", w);
	r = a || b;
	w = r;
	printf("|| %ld\n", w);
	a = 7;
	b = (-128);
	r = a < b;
	w = r;
	printf("< %ld\n", w);
	r = a > b;
	w = r;
	printf("> %ld\n", w);
	r = a <= b;
	w = r;
	printf("<= %ld\n", w);
	r = a >= b;
	w = r;
	printf(">= %ld\n", w);
	r = a == b;
	w = r;
	printf("== %ld\n", w);
	r = a != b;
	w = r;
	printf("!= %ld\n", w);
	r = a && b;
	w = r;
	printf("&& %ld\n", w);
	r = a || b;
	w = r;
	printf("|| %ld\n", w);
	a = 7;
	b = 67;
	r = a < b;
	w = r;
	printf("< %ld\n", w);
	r = a > b;
	w = r;
	printf("> %ld\n", w);
	r = a <= b;
	w = r;
	printf("<= %ld\n", w);
	r = a >= b;
	w = r;
	printf(">= %ld\n", w);
	r = a == b;
	w = r;
	printf("== %ld\n", w);
	r = a != b;
	w = r;
	printf("!= %ld\n", w);
	r = a && b;
	w = r;
	printf("&& %ld\n", w);
	r = a || b;
	w = r;
	printf("|| %ld\n", w);
	a = 7;
	b = 7;
	r = a < b;
	w = r;
	printf("< %ld\n", w);
	r = a > b;
	w = r;
	printf("> %ld\n", w);
	r = a <= b;
	w = r;
	printf("<= %ld\n", w);
	r = a >= b;
	w = r;
	printf(">= %ld\n", w);
	r = a == b;
	w = r;
	printf("== %ld\n", w);
	r = a != b;
	w = r;
	printf("!= %ld\n", w);
	r = a && b;
	w = r;
	printf("&& %ld\n", w);
	r = a || b;
	w = r;
	printf("|| %ld\n", w);
	r = !a;
	w = r;
	printf("! %ld\n", w);
	r = a ? 3 : 4;
	w = r;
	printf("? %ld\n", w);
	a = (-7);
	b = 0;
	r = a < b;
	w = r;
	printf("< %ld\n", w);
	r = a > b;
	w = r;
	printf("> %ld\n", w);
	r = a <= b;
	w = r;
	printf("<= %ld\n", w);
	r = a >= b;
	w = r;
	printf(">= %ld\n", w);
	r = a == b;
	w = r;
	printf("== %ld\n", w);
	r = a != b;
	w = r;
	printf("!= %ld\n", w);
	r = a && b;
	w = r;
	printf("&& %ld\n", w);
	r = a || b;
	w = r;
	printf("|| %ld\n", w);
	a = (-7);
	b = 7;
	r = a < b;
	w = r;
	printf("< %ld\n", w);
	r = a > b;
	w = r;
	printf("> %ld\n", w);
	r = a <= b;
	w = r;
	printf("<= %ld\n", w);
	r = a >= b;
	w = r;
	printf(">= %ld\n", w);
	r = a == b;
	w = r;
	printf("== %ld\n", w);
	r = a != b;
	w = r;
	printf("!= %ld\n", w);
	r = a && b;
	w = r;
	printf("&& %ld\n", w);
	r = a || b;
	w = r;
	printf("|| %ld\n", w);
	a = (-7);
	b = (-128);
	r = a < b;
	w = r;
	printf("< %ld\n", w);
	r = a > b;
	w = r;
	printf("> %ld\n", w);
	r = a <= b;
	w = r;
	printf("<= %ld\n", w);
	r = a >= b;
	w = r;
	printf(">= %ld\n", w);
	r = a == b;
	w = r;
	printf("== %ld\n", w);
	r = a != b;
	w = r;
	printf("!= %ld\n", w);
	r = a && b;
	w = r;
	printf("&& %ld\n", w);
	r = a || b;
	w = r;
	printf("|| %ld\n", w);
	a = (-7);
	b = 67;
	r = a < b;
	w = r;
	printf("< %ld\n", w);
	r = a > b;
	w = r;
	printf("> %ld\n", w);
	r = a <= b;
	w = r;
	printf("<= %ld\n", w);
	r = a >= b;
	w = r;
	printf(">= %ld\n", w);
	r = a == b;
	w = r;
	printf("== %ld\n", w);
	r = a != b;
	w = r;
	printf("!= %ld\n", w);
	r = a && b;
	w = r;
	printf("&& %ld\n", w);
	r = a || b;
	w = r;
	printf("|| %ld\n", w);
	a = (-7);
	b = (-7);
	r = a < b;
	w = r;
	printf("< %ld\n", w);
	r = a > b;
	w = r;
	printf("> %ld\n", w);
	r = a <= b;
	w = r;
	printf("<= %ld\n", w);
	r = a >= b;
	w = r;
	printf(">= %ld\n", w);
	r = a == b;
	w = r;
	printf("== %ld\n", w);
	r = a != b;
	w = r;
	printf("!= %ld\n", w);
	r = a && b;
	w = r;
	printf("&& %ld\n", w);
	r = a || b;
	w = r;
	printf("|| %ld\n", w);
	r = !a;
	w = r;
	printf("! %ld\n", w);
	r = a ? 3 : 4;
	w = r;
	printf("? %ld\n", w);
	a = 100;
	b = 0;
	r = a < b;
	w = r;
	printf("< %ld\n", w);
	r = a > b;
	w = r;
	printf("> %ld\n", w);
	r = a <= b;
	w = r;
	printf("<= %ld\n", w);
	r = a >= b;
	w = r;
	printf(">= %ld\n", w);
	r = a == b;
	w = r;
	printf("== %ld\n", w);
	r = a != b;
	w = r;
	printf("!= %ld\n", w);
	r = a && b;
	w = r;
	printf("&& %ld\n", w);
	r = a || b;
	w = r;
	printf("|| %ld\n", w);
	a = 100;
	b = 7;
	r = a < b;
	w = r;
	printf("< %ld\n", w);
	r = a > b;
	w = r;
	printf("> %ld\n", w);
	r = a <= b;
	w = r;
	printf("<= %ld\n", w);
	r = a >= b;
	w = r;
	printf(">= %ld\n", w);
	r = a == b;
	w = r;
	printf("== %ld\n", w);
	r = a != b;
	w = r;
	printf("!= %ld\n", w);
	r = a && b;
	w = r;
	printf("&& %ld\n", w);
	r = a || b;
	w = r;
	printf("|| %ld\n", w);
	a = 100;
	b = (-128);
	r = a < b;
	w = r;
	printf("< %ld\n", w);
	r = a > b;
	w = r;
	printf("> %ld\n", w);
	r = a <= b;
	w = r;
	printf("<= %ld\n", w);
	r = a >= b;
	w = r;
	printf(">= %ld\n", w);
	r = a == b;
	w = r;
	printf("== %ld\n", w);
	r = a != b;
	w = r;
	printf("!= %ld\n", w);
	r = a && b;
	w = r;
	printf("&& %ld\n", w);
	r = a || b;
	w = r;
	printf("|| %ld\n", w);
	a = 100;
	b = 67;
	r = a < b;
	w = r;
	printf("< %ld\n", w);
	r = a > b;
	w = r;
	printf("> %ld\n", w);
	r = a <= b;
	w = r;
	printf("<= %ld\n", w);
	r = a >= b;
	w = r;
	printf(">= %ld\n", w);
	r = a == b;
	w = r;
	printf("== %ld\n", w);
	r = a != b;
	w = r;
	printf("!= %ld\n", w);
	r = a && b;
	w = r;
	printf("&& %ld\n", w);
	r = a || b;
	w = r;
	printf("|| %ld\n", w);
	a = 100;
	b = 100;
	r = a < b;
	w = r;
	printf("< %ld\n", w);
	r = a > b;
	w = r;
	printf("> %ld\n", w);
	r = a <= b;
	w = r;
	printf("<= %ld\n", w);
	r = a >= b;
	w = r;
	printf(">= %ld\n", w);
	r = a == b;
	w = r;
	printf("== %ld\n", w);
	r = a != b;
	w = r;
	printf("!= %ld\n", w);
	r = a && b;
	w = r;
	printf("&& %ld\n", w);
	r = a || b;
	w = r;
	printf("|| %ld\n", w);
	r = !a;
	w = r;
	printf("! %ld\n", w);
	r = a ? 3 : 4;
	w = r;
	printf("? %ld\n", w);
	a = (-128);
	b = 0;
	r = a < b;
	w = r;
	printf("< %ld\n", w);
	r = a > b;
	w = r;
	printf("> %ld\n", w);
	r = a <= b;
	w = r;
	printf("<= %ld\n", w);
	r = a >= b;
	w = r;
	printf(">= %ld\n", w);
	r = a == b;
	w = r;
	printf("== %ld\n", w);
	r = a != b;
	w = r;
	printf("!= %ld\n", w);
	r = a && b;
	w = r;
	printf("&& %ld\n", w);
	r = a || b;
	w = r;
	printf("|| %ld\n", w);
	a = (-128);
	b = 7;
	r = a < b;
	w = r;
	printf("< %ld\n", w);
	r = a > b;
	w = r;
	printf("> %ld\n", w);
	r = a <= b;
	w = r;
	printf("<= %ld\n", w);
	r = a >= b;
	w = r;
	printf(">= %ld\n", w);
	r = a == b;
	w = r;
	printf("== %ld\n", w);
	r = a != b;
	w = r;
	printf("!= %ld\n", w);
	r = a && b;
	w = r;
	printf("&& %ld\n", w);
	r = a || b;
	w = r;
	printf("|| %ld\n", w);
	a = (-128);
	b = (-128);
	r = a < b;
	w = r;
	printf("< %ld\n", w);
	r = a > b;
	w = r;
	printf("> %ld\n", w);
	r = a <= b;
	w = r;
	printf("<= %ld\n", w);
	r = a >= b;
	w = r;
	printf(">= %ld\n", w);
	r = a == b;
	w = r;
	printf("== %ld\n", w);
	r = a != b;
	w = r;
	printf("!= %ld\n", w);
	r = a && b;
	w = r;
	printf("&& %ld\n", w);
	r = a || b;
	w = r;
	printf("|| %ld\n", w);
	a = (-128);
	b = 67;
	r = a < b;
	w = r;
	printf("< %ld\n", w);
	r = a > b;
	w = r;
	printf("> %ld\n", w);
	r = a <= b;
	w = r;
	printf("<= %ld\n", w);
	r = a >= b;
	w = r;
	printf(">= %ld\n", w);
	r = a == b;
	w = r;
	printf("== %ld\n", w);
	r = a != b;
	w = r;
	printf("!= %ld\n", w);
	r = a && b;
	w = r;
	printf("&& %ld\n", w);
	r = a || b;
	w = r;
	printf("|| %ld\n", w);
	a = (-128);
	b = (-128);
	r = a < b;
	w = r;
	printf("< %ld\n", w);
	r = a > b;
	w = r;
	printf("> %ld\n", w);
	r = a <= b;
	w = r;
	printf("<= %ld\n", w);
	r = a >= b;
	w = r;
	printf(">= %ld\n", w);
	r = a == b;
	w = r;
	printf("== %ld\n", w);
	r = a != b;
	w = r;
	printf("!= %ld\n", w);
	r = a && b;
	w = r;
	printf("&& %ld\n", w);
	r = a || b;
	w = r;
	printf("|| %ld\n", w);
	r = !a;
	w = r;
	printf("! %ld\n", w);
	r = a ? 3 : 4;
	w = r;
	printf("? %ld\n", w);
	a = 127;
	b = 0;
	r = a < b;
	w = r;
	printf("< %ld\n", w);
	r = a > b;
	w = r;
	printf("> %ld\n", w);
	r = a <= b;
	w = r;
	printf("<= %ld\n", w);
	r = a >= b;
	w = r;
	printf(">= %ld\n", w);
	r = a == b;
	w = r;
	printf("== %ld\n", w);
	r = a != b;
	w = r;
	printf("!= %ld\n", w);
	r = a && b;
	w = r;
	printf("&& %ld\n", w);
	r = a || b;
	w = r;
	printf("|| %ld\n", w);
	a = 127;
	b = 7;
	r = a < b;
	w = r;
	printf("< %ld\n", w);
	r = a > b;
	w = r;
	printf("> %ld\n", w);
	r = a <= b;
	w = r;
	printf("<= %ld\n", w);
	r = a >= b;
	w = r;
	printf(">= %ld\n", w);
	r = a == b;
	w = r;
	printf("== %ld\n", w);
	r = a != b;
	w = r;
	printf("!= %ld\n", w);
	r = a && b;
	w = r;
	printf("&& %ld\n", w);
	r = a || b;
	w = r;
	printf("|| %ld\n", w);
	a = 127;
	b = (-128);
	r = a < b;
	w = r;
	printf("< %ld\n", w);
	r = a > b;
	w = r;
	printf("> %ld\n", w);
	r = a <= b;
	w = r;
	printf("<= %ld\n", w);
	r = a >= b;
	w = r;
	printf(">= %ld\n", w);
	r = a == b;
	w = r;
	printf("== %ld\n", w);
	r = a != b;
	w = r;
	printf("!= %ld\n", w);
	r = a && b;
	w = r;
	printf("&& %ld\n", w);
	r = a || b;
	w = r;
	printf("|| %ld\n", w);
	a = 127;
	b = 67;
	r = a < b;
	w = r;
	printf("< %ld\n", w);
	r = a > b;
	w = r;
	printf("> %ld\n", w);
	r = a <= b;
	w = r;
	printf("<= %ld\n", w);
	r = a >= b;
	w = r;
	printf(">= %ld\n", w);
	r = a == b;
	w = r;
	printf("== %ld\n", w);
	r = a != b;
	w = r;
	printf("!= %ld\n", w);
	r = a && b;
	w = r;
	printf("&& %ld\n", w);
	r = a || b;
	w = r;
	printf("|| %ld\n", w);
	a = 127;
	b = 127;
	r = a < b;
	w = r;
	printf("< %ld\n", w);
	r = a > b;
	w = r;
	printf("> %ld\n", w);
	r = a <= b;
	w = r;
	printf("<= %ld\n", w);
	r = a >= b;
	w = r;
	printf(">= %ld\n", w);
	r = a == b;
	w = r;
	printf("== %ld\n", w);
	r = a != b;
	w = r;
	printf("!= %ld\n", w);
	r = a && b;
	w = r;
	printf("&& %ld\n", w);
	r = a || b;
	w = r;
	printf("|| %ld\n", w);
	r = !a;
	w = r;
	printf("! %ld\n", w);
	r = a ? 3 : 4;
	w = r;
	printf("? %ld\n", w);
	a = (-128);
	b = 0;
	r = a < b;
	w = r;
	printf("< %ld\n", w);
	r = a > b;
	w = r;
	printf("> %ld\n", w);
	r = a <= b;
	w = r;
	printf("<= %ld\n", w);
	r = a >= b;
	w = r;
	printf(">= %ld\n", w);
	r = a == b;
	w = r;
	printf("== %ld\n", w);
	r = a != b;
	w = r;
	printf("!= %ld\n", w);
	r = a && b;
	w = r;
	printf("&& %ld\n", w);
	r = a || b;
	w = r;
	printf("|| %ld\n", w);
	a = (-128);
	b = 7;
	r = a < b;
	w = r;
	printf("< %ld\n", w);
	r = a > b;
	w = r;
	printf("> %ld\n", w);
	r = a <= b;
	w = r;
	printf("<= %ld\n", w);
	r = a >= b;
	w = r;
	printf(">= %ld\n", w);
	r = a == b;
	w = r;
	printf("== %ld\n", w);
	r = a != b;
	w = r;
	printf("!= %ld\n", w);
	r = a && b;
	w = r;
	printf("&& %ld\n", w);
	r = a || b;
	w = r;
	printf("|| %ld\n", w);
	a = (-128);
	b = (-128);
	r = a < b;
	w = r;
	printf("< %ld\n", w);
	r = a > b;
	w = r;
	printf("> %ld\n", w);
	r = a <= b;
	w = r;
	printf("<= %ld\n", w);
	r = a >= b;
	w = r;
	printf(">= %ld\n", w);
	r = a == b;
	w = r;
	printf("== %ld\n", w);
	r = a != b;
	w = r;
	printf("!= %ld\n", w);
	r = a && b;
	w = r;
	printf("&& %ld\n", w);
	r = a || b;
	w = r;
	printf("|| %ld\n", w);
	a = (-128);
	b = 67;
	r = a < b;
	w = r;
	printf("< %ld\n", w);
	r = a > b;
	w = r;
	printf("> %ld\n", w);
	r = a <= b;
	w = r;
	printf("<= %ld\n", w);
	r = a >= b;
	w = r;
	printf(">= %ld\n", w);
	r = a == b;
	w = r;
	printf("== %ld\n", w);
	r = a != b;
	w = r;
	printf("!= %ld\n", w);
	r = a && b;
	w = r;
	printf("&& %ld\n", w);
	r = a || b;
	w = r;
	printf("|| %ld\n", w);
	a = (-128);
	b = (-128);
	r = a < b;
	w = r;
	printf("< %ld\n", w);
	r = a > b;
	w = r;
	printf("> %ld\n", w);
	r = a <= b;
	w = r;
	printf("<= %ld\n", w);
	r = a >= b;
	w = r;
	printf(">= %ld\n", w);
	r = a == b;
	w = r;
	printf("== %ld\n", w);
	r = a != b;
	w = r;
	printf("!= %ld\n", w);
	r = a && b;
	w = r;
	printf("&& %ld\n", w);
	r = a || b;
	w = r;
	printf("|| %ld\n", w);
	r = !a;
	w = r;
	printf("! %ld\n", w);
	r = a ? 3 : 4;
	w = r;
	printf("? %ld\n", w);
	a = 67;
	b = 0;
	r = a < b;
	w = r;
	printf("< %ld\n", w);
	r = a > b;
	w = r;
	printf("> %ld\n", w);
	r = a <= b;
	w = r;
	printf("<= %ld\n", w);
	r = a >= b;
	w = r;
	printf(">= %ld\n", w);
	r = a == b;
	w = r;
	printf("== %ld\n", w);
	r = a != b;
	w = r;
	printf("!= %ld\n", w);
	r = a && b;
	w = r;
	printf("&& %ld\n", w);
	r = a || b;
	w = r;
	printf("|| %ld\n", w);
	a = 67;
	b = 7;
	r = a < b;
	w = r;
	printf("< %ld\n", w);
	r = a > b;
	w = r;
	printf("> %ld\n", w);
	r = a <= b;
	w = r;
	printf("<= %ld\n", w);
	r = a >= b;
	w = r;
	printf(">= %ld\n", w);
	r = a == b;
	w = r;
	printf("== %ld\n", w);
	r = a != b;
	w = r;
	printf("!= %ld\n", w);
	r = a && b;
	w = r;
	printf("&& %ld\n", w);
	r = a || b;
	w = r;
	printf("|| %ld\n", w);
	a = 67;
	b = (-128);
	r = a < b;
	w = r;
	printf("< %ld\n", w);
	r = a > b;
	w = r;
	printf("> %ld\n", w);
	r = a <= b;
	w = r;
	printf("<= %ld\n", w);
	r = a >= b;
	w = r;
	printf(">= %ld\n", w);
	r = a == b;
	w = r;
	printf("== %ld\n", w);
	r = a != b;
	w = r;
	printf("!= %ld\n", w);
	r = a && b;
	w = r;
	printf("&& %ld\n", w);
	r = a || b;
	w = r;
	printf("|| %ld\n", w);
	a = 67;
	b = 67;
	r = a < b;
	w = r;
	printf("< %ld\n", w);
	r = a > b;
	w = r;
	printf("> %ld\n", w);
	r = a <= b;
	w = r;
	printf("<= %ld\n", w);
	r = a >= b;
	w = r;
	printf(">= %ld\n", w);
	r = a == b;
	w = r;
	printf("== %ld\n", w);
	r = a != b;
	w = r;
	printf("!= %ld\n", w);
	r = a && b;
	w = r;
	printf("&& %ld\n", w);
	r = a || b;
	w = r;
	printf("|| %ld\n", w);
	a = 67;
	b = 67;
	r = a < b;
	w = r;
	printf("< %ld\n", w);
	r = a > b;
	w = r;
	printf("> %ld\n", w);
	r = a <= b;
	w = r;
	printf("<= %ld\n", w);
	r = a >= b;
	w = r;
	printf(">= %ld\n", w);
	r = a == b;
	w = r;
	printf("== %ld\n", w);
	r = a != b;
	w = r;
	printf("!= %ld\n", w);
	r = a && b;
	w = r;
	printf("&& %ld\n", w);
	r = a || b;
	w = r;
	printf("|| %ld\n", w);
	r = !a;
	w = r;
	printf("! %ld\n", w);
	r = a ? 3 : 4;
	w = r;
	printf("? %ld\n", w);
	return 0;
}

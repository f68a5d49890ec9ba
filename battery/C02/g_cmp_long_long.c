int printf(const char *f, ...);
int main()
{
	long long a;
	long long b;
	int r;
	long w;
	a = 0;
	b = 0;
	r = a < b;
	w = r;
	printf("< %ld\n", w);
	r = a > b;
	w = r;
	printf("> %ld\n", w);
	r = a <= b;
	w = r;
	printf("<= %ld\n", w);
	r = a >= b;
	w = r;
	printf(">= %ld\n", w);
	r = a == b;
	w = r;
	printf("== %ld\n", w);
	r = a != b;
	w = r;
	printf("!= %ld\n", w);
	r = a && b;
	w = r;
	printf("&& %ld\n", w);
	r = a || b;
	w = r;
	printf("|| %ld\n", w);
	a = 0;
	b = 7;
	r = a < b;
	w = r;
	printf("< %ld\n", w);
	r = a > b;
	w = r;
	printf("> %ld\n", w);
	r = a <= b;
	w = r;
	printf("<= %ld\n", w);
	r = a >= b;
	w = r;
	printf(">= %ld\n", w);
	r = a == b;
	w = r;
	printf("== %ld\n", w);
	r = a != b;
	w = r;
	printf("!= %ld\n", w);
	r = a && b;
	w = r;
	printf("&& %ld\n", w);
	r = a || b;
	w = r;
	printf("|| %ld\n", w);
	a = 0;
	b = (-128);
	r = a < b;
	w = r;
	printf("< %ld\n", w);
	r = a > b;
	w = r;
	printf("> %ld\n", w);
	r = a <= b;
	w = r;
	printf("<= %ld\n", w);
	r = a >= b;
	w = r;
	printf(">= %ld\n", w);
	r = a == b;
	w = r;
	printf("== %ld\n", w);
	r = a != b;
	w = r;
	printf("!= %ld\n", w);
	r = a && b;
	w = r;
	printf("&& %ld\n", w);
	r = a || b;
	w = r;
	printf("|| %ld\n", w);
	a = 0;
	b = 4611686018427387907;
	r = a < b;
	w = r;
	printf("< %ld\n", w);
	r = a > b;
	w = r;
	printf("> %ld\n", w);
	r = a <= b;
	w = r;
	printf("<= %ld\n", w);
	r = a >= b;
	w = r;
	printf(">= %ld\n", w);
	r = a == b;
	w = r;
	printf("== %ld\n", w);
	r = a != b;
	w = r;
	printf("!= %ld\n", w);
	r = a && b;
	w = r;
	printf("&& %ld\n", w);
	r = a || b;
	w = r;
	printf("|| %ld\n", w);
	a = 0;
	b = 0;
	r = a < b;
	w = r;
	printf("< %ld\n", w);
	r = a > b;
	w = r;
	printf("> %ld\n", w);
	r = a <= b;
	w = r;
	printf("<= %ld\n", w);
	r = a >= b;
	w = r;
	printf(">= %ld\n", w);
	r = a == b;
	w = r;
	printf("== %ld\n", w);
	r = a != b;
	w = r;
	printf("!= %ld\n", w);
	r = a && b;
	w = r;
	printf("&& %ld\n", w);
	r = a || b;
	w = r;
	printf("|| %ld\n", w);
	r = !a;
	w = r;
	printf("! %ld\n", w);
	r = a ? 3 : 4;
	w = r;
	printf("? %ld\n", w);
	a = 1;
	b = 0;
	r = a < b;
	w = r;
	printf("< %ld\n", w);
	r = a > b;
	w = r;
	printf("> %ld\n", w);
	r = a <= b;
	w = r;
	printf("<= %ld\n", w);
	r = a >= b;
	w = r;
	printf(">= %ld\n", w);
	r = a == b;
	w = r;
	printf("== %ld\n", w);
	r = a != b;
	w = r;
	printf("!= %ld\n", w);
	r = a && b;
	w = r;
	printf("&& %ld\n", w);
	r = a || b;
	w = r;
	printf("|| %ld\n", w);
	a = 1;
	b = 7;
	r = a < b;
	w = r;
	printf("< %ld\n", w);
	r = a > b;
	w = r;
	printf("> %ld\n", w);
	r = a <= b;
	w = r;
	printf("<= %ld\n", w);
	r = a >= b;
	w = r;
	printf(">= %ld\n", w);
	r = a == b;
	w = r;
	printf("== %ld\n", w);
	r = a != b;
	w = r;
	printf("!= %ld\n", w);
	r = a && b;
	w = r;
	printf("&& %ld\n", w);
	r = a || b;
	w = r;
	printf("|| %ld\n", w);
	a = 1;
	b = (-128);
	r = a < b;
	w = r;
	printf("< %ld\n", w);
	r = a > b;
	w = r;
	printf("> %ld\n", w);
	r = a <= b;
	w = r;
	printf("<= %ld\n", w);
	r = a >= b;
	w = r;
	printf(">= %ld\n", w);
	r = a == b;
	w = r;
	printf("== %ld\n", w);
	r = a != b;
	w = r;
	printf("!= %ld\n", w);
	r = a && b;
	w = r;
	printf("&& %ld\n", w);
	r = a || b;
	w = r;
	printf("|| %ld\n", w);
	a = 1;
	b = 4611686018427387907;
	r = a < b;
	w = r;
	printf("< %ld\n", w);
	r = a > b;
	w = r;
	printf("> %ld\n", w);
	r = a <= b;
	w = r;
	printf("<= %ld\n", w);
	r = a >= b;
	w = r;
	printf(">= %ld\n", w);
	r = a == b;
	w = r;
	printf("== %ld\n", w);
	r = a != b;
	w = r;
	printf("!= %ld\n", w);
	r = a && b;
	w = r;
	printf("&& %ld\n", w);
	r = a || b;
	w = r;
	printf("|| %ld\n", w);
	a = 1;
	b = 1;
	r = a < b;
	w = r;
	printf("< %ld\n", w);
	r = a > b;
	w = r;
	printf("> %ld\n", w);
	r = a <= b;
	w = r;
	printf("<= %ld\n", w);
	r = a >= b;
	w = r;
	printf(">= %ld\n", w);
	r = a == b;
	w = r;
	printf("== %ld\n", w);
	r = a != b;
	w = r;
	printf("!= %ld\n", w);
	r = a && b;
	w = r;
	printf("&& %ld\n", w);
	r = a || b;
	w = r;
	printf("|| %ld\n", w);
	r = !a;
	w = r;
	printf("! %ld\n", w);
	r = a ? 3 : 4;
	w = r;
	printf("? %ld\n", w);
	a = (-1);
	b = 0;
	r = a < b;
	w = r;
	printf("< %ld\n", w);
	r = a > b;
	w = r;
	printf("> %ld\n", w);
	r = a <= b;
	w = r;
	printf("<= %ld\n", w);
	r = a >= b;
	w = r;
	printf(">= %ld\n", w);
	r = a == b;
	w = r;
	printf("== %ld\n", w);
	r = a != b;
	w = r;
	printf("!= %ld\n", w);
	r = a && b;
	w = r;
	printf("&& %ld\n", w);
	r = a || b;
	w = r;
	printf("|| %ld\n", w);
	a = (-1);
	b = 7;
	r = a < b;
	w = r;
	printf("< %ld\n", w);
	r = a > b;
	w = r;
	printf("> %ld\n", w);
	r = a <= b;
	w = r;
	printf("<= %ld\n", w);
	r = a >= b;
	w = r;
	printf(">= %ld\n", w);
	r = a == b;
	w = r;
	printf("== %ld\n", w);
	r = a != b;
	w = r;
	printf("!= %ld\n", w);
	r = a && b;
	w = r;
	printf("&& %ld\n", w);
	r = a || b;
	w = r;
	printf("|| %ld\n", w);
	a = (-1);
	b = (-128);
	r = a < b;
	w = r;
	printf("< %ld\n", w);
	r = a > b;
	w = r;
	printf("> %ld\n", w);
	r = a <= b;
	w = r;
	printf("<= %ld\n", w);
	r = a >= b;
	w = r;
	printf(">= %ld\n", w);
	r = a == b;
	w = r;
	printf("== %ld\n", w);
	r = a != b;
	w = r;
	printf("!= %ld\n", w);
	r = a && b;
	w = r;
	printf("&& %ld\n", w);
	r = a || b;
	w = r;
	printf("|| %ld\n", w);
	a = (-1);
	b = 4611686018427387907;
	r = a < b;
	w = r;
	printf("< %ld\n", w);
	r = a > b;
	w = r;
	printf("> %ld\n", w);
	r = a <= b;
	w = r;
	printf("<= %ld\n", w);
	r = a >= b;
	w = r;
	printf(">= %ld\n", w);
	r = a == b;
	w = r;
	printf("== %ld\n", w);
	r = a != b;
	w = r;
	printf("!= %ld\n", w);
	r = a && b;
	w = r;
	printf("&& %ld\n", w);
	r = a || b;
	w = r;
	printf("|| %ld\n", w);
	a = (-1);
	b = (-1);
	r = a < b;
	w = r;
	printf("< %ld\n", w);
	r = a > b;
	w = r;
	printf("> %ld\n", w);
	r = a <= b;
	w = r;
	printf("<= %ld\n", w);
	r = a >= b;
	w = r;
	printf(">= %ld\n", w);
	r = a == b;
	w = r;
	printf("== %ld\n", w);
	r = a != b;
	w = r;
	printf("!= %ld\n", w);
	r = a && b;
	w = r;
	printf("&& %ld\n", w);
	r = a || b;
	w = r;
	printf("|| %ld\n", w);
	r = !a;
	w = r;
	printf("! %ld\n", w);
	r = a ? 3 : 4;
	w = r;
	printf("? %ld\n", w);
	a = 7;
	b = 0;
	r = a < b;
	w = r;
	printf("< %ld\n", w);
	r = a > b;
	w = r;
	printf("> %ld\n", w);
	r = a <= b;
	w = r;
	printf("<= %ld\n", w);
	r = a >= b;
	w = r;
	printf(">= %ld\n", w);
	r = a == b;
	w = r;
	printf("== %ld\n", w);
	r = a != b;
	w = r;
	printf("!= %ld\n", w);
	r = a && b;
	w = r;
	printf("&& %ld\n", w);
	r = a || b;
	w = r;
	printf("|| %ld\n", w);
	a = 7;
	b = 7;
	r = a < b;
	w = r;
	printf("< %ld\n", w);
	r = a > b;
	w = r;
	printf("> %ld\n", w);
	r = a <= b;
	w = r;
	printf("<= %ld\n", w);
	r = a >= b;
	w = r;
	printf(">= %ld\n", w);
	r = a == b;
	w = r;
	printf("== %ld\n", w);
	r = a != b;
	w = r;
	printf("!= %ld\n", w);
	r = a && b;
	w = r;
	printf("&& %ld\n", w);
	r = a || b;
	w = r;
	printf("|| %ld\n", w);
	a = 7;
	b = (-128);
	r = a < b;
	w = r;
	printf("< %ld\n", w);
	r = a > b;
	w = r;
	printf("> %ld\n", w);
	r = a <= b;
	w = r;
	printf("<= %ld\n", w);
	r = a >= b;
	w = r;
	printf(">= %ld\n", w);
	r = a == b;
	w = r;
	printf("== %ld\n", w);
	r = a != b;
	w = r;
	printf("!= %ld\n", w);
	r = a && b;
	w = r;
	printf("&& %ld\n", w);
	r = a || b;
	w = r;
	printf("|| %ld\n", w);
	a = 7;
	b = 4611686018427387907;
	r = a < b;
	w = r;
	printf("< %ld\n", w);
	r = a > b;
	w = r;
	printf("> %ld\n", w);
	r = a <= b;
	w = r;
	printf("<= %ld\n", w);
	r = a >= b;
	w = r;
	printf(">= %ld\n", w);
	r = a == b;
	w = r;
	printf("== %ld\n", w);
	r = a != b;
	w = r;
	printf("!= %ld\n", w);
	r = a && b;
	w = r;
	printf("&& %ld\n", w);
	r = a || b;
	w = r;
	printf("|| %ld\n", w);
	a = 7;
	b = 7;
	r = a < b;
	w = r;
	printf("< %ld\n", w);
	r = a > b;
	w = r;
	printf("> %ld\n", w);
	r = a <= b;
	w = r;
	printf("<= %ld\n", w);
	r = a >= b;
	w = r;
	printf(">= %ld\n", w);
	r = a == b;
	w = r;
	printf("== %ld\n", w);
	r = a != b;
	w = r;
	printf("!= %ld\n", w);
	r = a && b;
	w = r;
	printf("&& %ld\n", w);
	r = a || b;
	w = r;
	printf("|| %ld\n", w);
	r = !a;
	w = r;
	printf("! %ld\n", w);
	r = a ? 3 : 4;
	w = r;
	printf("? %ld\n", w);
	a = (-7);
	b = 0;
	r = a < b;
	w = r;
	printf("< %ld\n", w);
	r = a > b;
	w = r;
	printf("> %ld\n", w);
	r = a <= b;
	w = r;
	printf("<= %ld\n", w);
	r = a >= b;
	w = r;
	printf(">= %ld\n", w);
	r = a == b;
	w = r;
	printf("== %ld\n", w);
	r = a != b;
	w = r;
	printf("!= %ld\n", w);
	r = a && b;
	w = r;
	printf("&& %ld\n", w);
	r = a || b;
	w = r;
	printf("|| %ld\n", w);
	a = (-7);
	b = 7;
	r = a < b;
	w = r;
	printf("< %ld\n", w);
	r = a > b;
	w = r;
	printf("> %ld\n", w);
	r = a <= b;
	w = r;
	printf("<= %ld\n", w);
	r = a >= b;
	w = r;
	printf(">= %ld\n", w);
	r = a == b;
	w = r;
	printf("== %ld\n", w);
	r = a != b;
	w = r;
	printf("!= %ld\n", w);
	r = a && b;
	w = r;
	printf("&& %ld\n", w);
	r = a || b;
	w = r;
	printf("|| %ld\n", w);
	a = (-7);
	b = (-128);
	r = a < b;
	w = r;
	printf("< %ld\n", w);
	r = a > b;
	w = r;
	printf("> %ld\n", w);
	r = a <= b;
	w = r;
	printf("<= %ld\n", w);
	r = a >= b;
	w = r;
	printf(">= %ld\n", w);
	r = a == b;
	w = r;
	printf("== %ld\n", w);
	r = a != b;
	w = r;
	printf("!= %ld\n", w);
	r = a && b;
	w = r;
	printf("&& %ld\n", w);
	r = a || b;
	w = r;
	printf("|| %ld\n", w);
	a = (-7);
	b = 4611686018427387907;
	r = a < b;
	w = r;
	printf("< %ld\n", w);
	r = a > b;
	w = r;
	printf("> %ld\n", w);
	r = a <= b;
	w = r;
	printf("<= %ld\n", w);
	r = a >= b;
	w = r;
	printf(">= %ld\n", w);
	r = a == b;
	w = r;
	printf("== %ld\n", w);
	r = a != b;
	w = r;
	printf("!= %ld\n", w);
	r = a && b;
	w = r;
	printf("&& %ld\n", w);
	r = a || b;
	w = r;
	printf("|| %ld\n", w);
	a = (-7);
	b = (-7);
	r = a < b;
	w = r;
	printf("< %ld\n", w);
	r = a > b;
	w = r;
	printf("> %ld\n", w);
	r = a <= b;
	w = r;
	printf("<= %ld\n", w);
	r = a >= b;
	w = r;
	printf(">= %ld\n", w);
	r = a == b;
	w = r;
	printf("== %ld\n", w);
	r = a != b;
	w = r;
	printf("!= %ld\n", w);
	r = a && b;
	w = r;
	printf("&& %ld\n", w);
	r = a || b;
	w = r;
	printf("|| %ld\n", w);
	r = !a;
	w = r;
	printf("! %ld\n", w);
	r = a ? 3 : 4;
	w = r;
	printf("? %ld\n", w);
	a = 100;
	b = 0;
	r = a < b;
	w = r;
	printf("< %ld\n", w);
	r = a > b;
	w = r;
	printf("> %ld\n", w);
	r = a <= b;
	w = r;
	printf("<= %ld\n", w);
	r = a >= b;
	w = r;
	printf(">= %ld\n", w);
	r = a == b;
	w = r;
	printf("== %ld\n", w);
	r = a != b;
	w = r;
	printf("!= %ld\n", w);
	r = a && b;
	w = r;
	printf("&& %ld\n", w);
	r = a || b;
	w = r;
	printf("|| %ld\n", w);
	a = 100;
	b = 7;
	r = a < b;
	w = r;
	printf("< %ld\n", w);
	r = a > b;
	w = r;
	printf("> %ld\n", w);
	r = a <= b;
	w = r;
	printf("<= %ld\n", w);
	r = a >= b;
	w = r;
	printf(">= %ld\n", w);
	r = a == b;
	w = r;
	printf("== %ld\n", w);
	r = a != b;
	w = r;
	printf("!= %ld\n", w);
	r = a && b;
	w = r;
	printf("&& %ld\n", w);
	r = a || b;
	w = r;
	printf("|| %ld\n", w);
	a = 100;
	b = (-128);
	r = a < b;
	w = r;
	printf("< %ld\n", w);
	r = a > b;
	w = r;
	printf("> %ld\n", w);
	r = a <= b;
	w = r;
	printf("<= %ld\n", w);
	r = a >= b;
	w = r;
	printf(">= %ld\n", w);
	r = a == b;
	w = r;
	printf("== %ld\n", w);
	r = a != b;
	w = r;
	printf("!= %ld\n", w);
	r = a && b;
	w = r;
	printf("&& %ld\n", w);
	r = a || b;
	w = r;
	printf("|| %ld\n", w);
	a = 100;
	b = 4611686018427387907;
	r = a < b;
	w = r;
	printf("< %ld\n", w);
	r = a > b;
	w = r;
	printf("> %ld\n", w);
	r = a <= b;
	w = r;
	printf("<= %ld\n", w);
	r = a >= b;
	w = r;
	printf(">= %ld\n", w);
	r = a == b;
	w = r;
	printf("== %ld\n", w);
	r = a != b;
	w = r;
	printf("!= %ld\n", w);
	r = a && b;
	w = r;
	printf("&& %ld\n", w);
	r = a || b;
	w = r;
	printf("|| %ld\n", w);
	a = 100;
	b = 100;
	r = a < b;
	w = r;
	printf("< %ld\n", w);
	r = a > b;
	w = r;
	printf("> %ld\n", w);
	r = a <= b;
	w = r;
	printf("<= %ld\n", w);
	r = a >= b;
	w = r;
	printf(">= %ld\n", w);
	r = a == b;
	w = r;
	printf("== %ld\n", w);
	r = a != b;
	w = r;
	printf("!= %ld\n", w);
	r = a && b;
	w = r;
	printf("&& %ld\n", w);
	r = a || b;
	w = r;
	printf("|| %ld\n", w);
	r = !a;
	w = r;
	printf("! %ld\n", w);
	r = a ? 3 : 4;
	w = r;
	printf("? %ld\n", w);
	a = (-128);
	b = 0;
	r = a < b;
	w = r;
	printf("< %ld\n", w);
	r = a > b;
	w = r;
	printf("> %ld\n", w);
	r = a <= b;
	w = r;
	printf("<= %ld\n", w);
	r = a >= b;
	w = r;
	printf(">= %ld\n", w);
	r = a == b;
	w = r;
	printf("== %ld\n", w);
	r = a != b;
	w = r;
	printf("!= %ld\n", w);
	r = a && b;
	w = r;
	printf("&& %ld\n", w);
	r = a || b;
	w = r;
	printf("|| %ld\n", w);
	a = (-128);
	b = 7;
	r = a < b;
	w = r;
	printf("< %ld\n", w);
	r = a > b;
	w = r;
	printf("> %ld\n", w);
	r = a <= b;
	w = r;
	printf("<= %ld\n", w);
	r = a >= b;
	w = r;
	printf(">= %ld\n", w);
	r = a == b;
	w = r;
	printf("== %ld\n", w);
	r = a != b;
	w = r;
	printf("!= %ld\n", w);
	r = a && b;
	w = r;
	printf("&& %ld\n", w);
	r = a || b;
	w = r;
	printf("|| %ld\n", w);
	a = (-128);
	b = (-128);
	r = a < b;
	w = r;
	printf("< %ld\n", w);
	r = a > b;
	w = r;
	printf("> %ld\n", w);
	r = a <= b;
	w = r;
	printf("<= %ld\n", w);
	r = a >= b;
	w = r;
	printf(">= %ld\n", w);
	r = a == b;
	w = r;
	printf("== %ld\n", w);
	r = a != b;
	w = r;
	printf("!= %ld\n", w);
	r = a && b;
	w = r;
	printf("&& %ld\n", w);
	r = a || b;
	w = r;
	printf("|| %ld\n", w);
	a = (-128);
	b = 4611686018427387907;
	r = a < b;
	w = r;
	printf("< %ld\n", w);
	r = a > b;
	w = r;
	printf("> %ld\n", w);
	r = a <= b;
	w = r;
	printf("<= %ld\n", w);
	r = a >= b;
	w = r;
	printf(">= %ld\n", w);
	r = a == b;
	w = r;
	printf("== %ld\n", w);
	r = a != b;
	w = r;
	printf("!= %ld\n", w);
	r = a && b;
	w = r;
	printf("&& %ld\n", w);
	r = a || b;
	w = r;
	printf("|| %ld\n", w);
	a = (-128);
	b = (-128);
	r = a < b;
	w = r;
	printf("< %ld\n", w);
	r = a > b;
	w = r;
	printf("> %ld\n", w);
	r = a <= b;
	w = r;
	printf("<= %ld\n", w);
	r = a >= b;
	w = r;
	printf(">= %ld\n", w);
	r = a == b;
	w = r;
	printf("== %ld\n", w);
	r = a != b;
	w = r;
	printf("!= %ld\n", w);
	r = a && b;
	w = r;
	printf("&& %ld\n", w);
	r = a || b;
	w = r;
	printf("|| %ld\n", w);
	r = !a;
	w = r;
	printf("! %ld\n", w);
	r = a ? 3 : 4;
	w = r;
	printf("? %ld\n", w);
	a = 9223372036854775807;
	b = 0;
	r = a < b;
	w = r;
	printf("< %ld\n", w);
	r = a > b;
	w = r;
	printf("> %ld\n", w);
	r = a <= b;
	w = r;
	printf("<= %ld\n", w);
	r = a >= b;
	w = r;
	printf(">= %ld\n", w);
	r = a == b;
	w = r;
	printf("== %ld\n", w);
	r = a != b;
	w = r;
	printf("!= %ld\n", w);
	r = a && b;
	w = r;
	printf("&& %ld\n", w);
	r = a || b;
	w = r;
	printf("|| %ld\n", w);
	a = 9223372036854775807;
	b = 7;
	r = a < b;
	w = r;
	printf("< %ld\n", w);
	r = a > b;
	w = r;
	printf("> %ld\n", w);
	r = a <= b;
	w = r;
	printf("<= %ld\n", w);
	r = a >= b;
	w = r;
	printf(">= %ld\n", w);
	r = a == b;
	w = r;
	printf("== %ld\n", w);
	r = a != b;
	w = r;
	printf("!= %ld\n", w);
	r = a && b;
	w = r;
	printf("&& %ld\n", w);
	r = a || b;
	w = r;
	printf("|| %ld\n", w);
	a = 9223372036854775807;
	b = (-128);
	r = a < b;
	w = r;
	printf("< %ld\n", w);
	r = a > b;
	w = r;
	printf("> %ld\n", w);
	r = a <= b;
	w = r;
	printf("<= %ld\n", w);
	r = a >= b;
	w = r;
	printf(">= %ld\n", w);
	r = a == b;
	w = r;
	printf("== %ld\n", w);
	r = a != b;
	w = r;
	printf("!= %ld\n", w);
	r = a && b;
	w = r;
	printf("&& %ld\n", w);
	r = a || b;
	w = r;
	printf("|| %ld\n", w);
	a = 9223372036854775807;
	b = 4611686018427387907;
	r = a < b;
	w = r;
	printf("< %ld\n", w);
	r = a > b;
	w = r;
	printf("> %ld\n", w);
	r = a <= b;
	w = r;
	printf("<= %ld\n", w);
	r = a >= b;
	w = r;
	printf(">= %ld\n", w);
	r = a == b;
	w = r;
	printf("== %ld\n", w);
	r = a != b;
	w = r;
	printf("!= %ld\n", w);
	r = a && b;
	w = r;
	printf("&& %ld\n", w);
	r = a || b;
	w = r;
	printf("|| %ld\n", w);
	a = 9223372036854775807;
	b = 9223372036854775807;
	r = a < b;
	w = r;
	printf("< %ld\n", w);
	r = a > b;
	w = r;
	printf("> %ld\n", w);
	r = a <= b;
	w = r;
	printf("<= %ld\n", w);
	r = a >= b;
	w = r;
	printf(">= %ld\n", w);
	r = a == b;
	w = r;
	printf("== %ld\n", w);
	r = a != b;
	w = r;
	printf("!= %ld\n", w);
	r = a && b;
	w = r;
	printf("&& %ld\n", w);
	r = a || b;
	w = r;
	printf("|| %ld\n", w);
	r = !a;
	w = r;
	printf("! %ld\n", w);
	r = a ? 3 : 4;
	w = r;
	printf("? %ld\n", w);
	a = (-9223372036854775807 - 1);
	b = 0;
	r = a < b;
	w = r;
	printf("< %ld\n", w);
	r = a > b;
	w = r;
	printf("> %ld\n", w);
	r = a <= b;
	w = r;
	printf("<= %ld\n", w);
	r = a >= b;
	w = r;
	printf(">= %ld\n", w);
	r = a == b;
	w = r;
	printf("== %ld\n", w);
	r = a != b;
	w = r;
	printf("!= %ld\n", w);
	r = a && b;
	w = r;
	printf("&& %ld\n", w);
	r = a || b;
	w = r;
	printf("|| %ld\n", w);
	a = (-9223372036854775807 - 1);
	b = 7;
	r = a < b;
	w = r;
	printf("< %ld\n", w);
	r = a > b;
	w = r;
	printf("> %ld\n", w);
	r = a <= b;
	w = r;
	printf("<= %ld\n", w);
	r = a >= b;
	w = r;
	printf(">= %ld\n", w);
	r = a == b;
	w = r;
	printf("== %ld\n", w);
	r = a != b;
	w = r;
	printf("!= %ld\n", w);
	r = a && b;
	w = r;
	printf("&& %ld\n", w);
	r = a || b;
	w = r;
	printf("|| %ld\n", w);
	a = (-9223372036854775807 - 1);
	b = (-128);
	r = a < b;
	w = r;
	printf("< %ld\n", w);
	r = a > b;
	w = r;
	printf("> %ld\n", w);
	r = a <= b;
	w = r;
	printf("<= %ld\n", w);
	r = a >= b;
	w = r;
	printf(">= %ld\n", w);
	r = a == b;
	w = r;
	printf("== %ld\n", w);
	r = a != b;
	w = r;
	printf("!= %ld\n", w);
	r = a && b;
	w = r;
	printf("&& %ld\n", w);
	r = a || b;
	w = r;
	printf("|| %ld\n", w);
	a = (-9223372036854775807 - 1);
	b = 4611686018427387907;
	r = a < b;
	w = r;
	printf("< %ld\n", w);
	r = a > b;
	w = r;
	printf("> %ld\n", w);
	r = a <= b;
	w = r;
	printf("<= %ld\n", w);
	r = a >= b;
	w = r;
	printf(">= %ld\n", w);
	r = a == b;
	w = r;
	printf("== %ld\n", w);
	r = a != b;
	w = r;
	printf("!= %ld\n", w);
	r = a && b;
	w = r;
	printf("&& %ld\n", w);
	r = a || b;
	w = r;
	printf("|| %ld\n", w);
	a = (-9223372036854775807 - 1);
	b = (-9223372036854775807 - 1);
	r = a < b;
	w = r;
	printf("< %ld\n", w);
	r = a > b;
	w = r;
	printf("> %ld\n", w);
	r = a <= b;
	w = r;
	printf("<= %ld\n", w);
	r = a >= b;
	w = r;
	printf(">= %ld\n", w);
	r = a == b;
	w = r;
	printf("== %ld\n", w);
	r = a != b;
	w = r;
	printf("!= %ld\n", w);
	r = a && b;
	w = r;
	printf("&& %ld\n", w);
	r = a || b;
	w = r;
	printf("|| %ld\n", w);
	r = !a;
	w = r;
	printf("! %ld\n", w);
	r = a ? 3 : 4;
	w = r;
	printf("? %ld\n", w);
	a = 4611686018427387907;
	b = 0;
	r = a < b;
	w = r;
	printf("< %ld\n", w);
	r = a > b;
	w = r;
	printf("> %ld\n", w);
	r = a <= b;
	w = r;
	printf("<= %ld\n", w);
	r = a >= b;
	w = r;
	printf(">= %ld\n", w);
	r = a == b;
	w = r;
	printf("== %ld\n", w);
	r = a != b;
	w = r;
	printf("!= %ld\n", w);
	r = a && b;
	w = r;
	printf("&& %ld\n", w);
	r = a || b;
	w = r;
	printf("|| %ld\n", w);
	a = 4611686018427387907;
	b = 7;
	r = a < b;
	w = r;
	printf("< %ld\n", w);
	r = a > b;
	w = r;
	printf("> %ld\n", w);
	r = a <= b;
	w = r;
	printf("<= %ld\n", w);
	r = a >= b;
	w = r;
	printf(">= %ld\n", w);
	r = a == b;
	w = r;
	printf("== %ld\n", w);
	r = a != b;
	w = r;
	printf("!= %ld\n", w);
	r = a && b;
	w = r;
	printf("&& %ld\n", w);
	r = a || b;
	w = r;
	printf("|| %ld\n", w);
	a = 4611686018427387907;
	b = (-128);
	r = a < b;
	w = r;
	printf("< %ld\n", w);
	r = a > b;
	w = r;
	printf("> %ld\n", w);
	r = a <= b;
	w = r;
	printf("<= %ld\n", w);
	r = a >= b;
	w = r;
	printf(">= %ld\n", w);
	r = a == b;
	w = r;
	printf("== %ld\n", w);
	r = a != b;
	w = r;
	printf("!= %ld\n", w);
	r = a && b;
	w = r;
	printf("&& %ld\n", w);
	r = a || b;
	w = r;
	printf("|| %ld\n", w);
	a = 4611686018427387907;
	b = 4611686018427387907;
	r = a < b;
	w = r;
	printf("< %ld\n", w);
	r = a > b;
	w = r;
	printf("> %ld\n", w);
	r = a <= b;
	w = r;
	printf("<= %ld\n", w);
	r = a >= b;
	w = r;
	printf(">= %ld\n", w);
	r = a == b;
	w = r;
	printf("== %ld\n", w);
	r = a != b;
	w = r;
	printf("!= %ld\n", w);
	r = a && b;
	w = r;
	printf("&& %ld\n", w);
	r = a || b;
	w = r;
	printf("|| %ld\n", w);
	a = 4611686018427387907;
	b = 4611686018427387907;
	r = a < b;
	w = r;
	printf("< %ld\n", w);
	r = a > b;
	w = r;
	printf("> %ld\n", w);
	r = a <= b;
	w = r;
	printf("<= %ld\n", w);
	r = a >= b;
	w = r;
	printf(">= %ld\n", w);
	r = a == b;
	w = r;
	printf("== %ld\n", w);
	r = a != b;
	w = r;
	printf("!= %ld\n", w);
	r = a && b;
	w = r;
	printf("&& %ld\n", w);
	r = a || b;
	w = r;
	printf("|| %ld\n", w);
	r = !a;
	w = r;
	printf("! %ld\n", w);
	r = a ? 3 : 4;
	w = r;
	printf("? %ld\n", w);
	return 0;
}

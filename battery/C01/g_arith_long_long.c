int printf(const char *f, ...);
int main()
{
	long long a;
	long long b;
	long long r;
	long w;
	a = 0;
	b = 1;
	r = a + b;
	w = r;
	printf("+ %ld\n", w);
	r = a - b;
	w = r;
	printf("- %ld\n", w);
	r = a * b;
	w = r;
	printf("* %ld\n", w);
	r = a & b;
	w = r;
	printf("& %ld\n", w);
	r = a | b;
	w = r;
	printf("| %ld\n", w);
	r = a ^ b;
	w = r;
	printf("^ %ld\n", w);
	r = a / b;
	w = r;
	printf("/ %ld\n", w);
	r = a % b;
	w = r;
	printf("%% %ld\n", w);
	r = ~a;
	w = r;
	printf("~ %ld\n", w);
	a = 0;
	b = (-7);
	r = a + b;
	w = r;
	printf("+ %ld\n", w);
	r = a - b;
	w = r;
	printf("- %ld\n", w);
	r = a * b;
	w = r;
	printf("* %ld\n", w);
	r = a & b;
	w = r;
	printf("& %ld\n", w);
	r = a | b;
	w = r;
	printf("| %ld\n", w);
	r = a ^ b;
	w = r;
	printf("^ %ld\n", w);
	r = a / b;
	w = r;
	printf("/ %ld\n", w);
	r = a % b;
	w = r;
	printf("%% %ld\n", w);
	r = ~a;
	w = r;
	printf("~ %ld\n", w);
	a = 1;
	b = (-7);
	r = a + b;
	w = r;
	printf("+ %ld\n", w);
	r = a - b;
	w = r;
	printf("- %ld\n", w);
	r = a * b;
	w = r;
	printf("* %ld\n", w);
	r = a & b;
	w = r;
	printf("& %ld\n", w);
	r = a | b;
	w = r;
	printf("| %ld\n", w);
	r = a ^ b;
	w = r;
	printf("^ %ld\n", w);
	r = a / b;
	w = r;
	printf("/ %ld\n", w);
	r = a % b;
	w = r;
	printf("%% %ld\n", w);
	r = ~a;
	w = r;
	printf("~ %ld\n", w);
	a = 1;
	b = 9223372036854775807;
	r = a + b;
	w = r;
	printf("+ %ld\n", w);
	r = a - b;
	w = r;
	printf("- %ld\n", w);
	r = a * b;
	w = r;
	printf("* %ld\n", w);
	r = a & b;
	w = r;
	printf("& %ld\n", w);
	r = a | b;
	w = r;
	printf("| %ld\n", w);
	r = a ^ b;
	w = r;
	printf("^ %ld\n", w);
	r = a / b;
	w = r;
	printf("/ %ld\n", w);
	r = a % b;
	w = r;
	printf("%% %ld\n", w);
	r = ~a;
	w = r;
	printf("~ %ld\n", w);
	a = (-1);
	b = 9223372036854775807;
	r = a + b;
	w = r;
	printf("+ %ld\n", w);
	r = a - b;
	w = r;
	printf("- %ld\n", w);
	r = a * b;
	w = r;
	printf("* %ld\n", w);
	r = a & b;
	w = r;
	printf("& %ld\n", w);
	r = a | b;
	w = r;
	printf("| %ld\n", w);
	r = a ^ b;
	w = r;
	printf("^ %ld\n", w);
	r = a / b;
	w = r;
	printf("/ %ld\n", w);
	r = a % b;
	w = r;
	printf("%% %ld\n", w);
	r = ~a;
	w = r;
	printf("~ %ld\n", w);
	a = (-1);
	b = 0;
	r = a + b;
	w = r;
	printf("+ %ld\n", w);
	r = a - b;
	w = r;
	printf("- %ld\n", w);
	r = a * b;
	w = r;
	printf("* %ld\n", w);
	r = a & b;
	w = r;
	printf("& %ld\n", w);
	r = a | b;
	w = r;
	printf("| %ld\n", w);
	r = a ^ b;
	w = r;
	printf("^ %ld\n", w);
	r = ~a;
	w = r;
	printf("~ %ld\n", w);
	a = 7;
	b = 0;
	r = a + b;
	w = r;
	printf("+ %ld\n", w);
	r = a - b;
	w = r;
	printf("- %ld\n", w);
	r = a * b;
	w = r;
	printf("* %ld\n", w);
	r = a & b;
	w = r;
	printf("& %ld\n", w);
	r = a | b;
	w = r;
	printf("| %ld\n", w);
	r = a ^ b;
	w = r;
	printf("^ %ld\n", w);
	r = ~a;
	w = r;
	printf("~ %ld\n", w);
	a = 7;
	b = 7;
	r = a + b;
	w = r;
	printf("+ %ld\n", w);
	r = a - b;
	w = r;
	printf("- %ld\n", w);
	r = a * b;
	w = r;
	printf("* %ld\n", w);
	r = a & b;
	w = r;
	printf("& %ld\n", w);
	r = a | b;
	w = r;
	printf("| %ld\n", w);
	r = a ^ b;
	w = r;
	printf("^ %ld\n", w);
	r = a / b;
	w = r;
	printf("/ %ld\n", w);
	r = a % b;
	w = r;
	printf("%% %ld\n", w);
	r = ~a;
	w = r;
	printf("~ %ld\n", w);
	a = (-7);
	b = 7;
	r = a + b;
	w = r;
	printf("+ %ld\n", w);
	r = a - b;
	w = r;
	printf("- %ld\n", w);
	r = a * b;
	w = r;
	printf("* %ld\n", w);
	r = a & b;
	w = r;
	printf("& %ld\n", w);
	r = a | b;
	w = r;
	printf("| %ld\n", w);
	r = a ^ b;
	w = r;
	printf("^ %ld\n", w);
	r = a / b;
	w = r;
	printf("/ %ld\n", w);
	r = a % b;
	w = r;
	printf("%% %ld\n", w);
	r = ~a;
	w = r;
	printf("~ %ld\n", w);
	a = (-7);
	b = (-128);
	r = a + b;
	w = r;
	printf("+ %ld\n", w);
	r = a - b;
	w = r;
	printf("- %ld\n", w);
	r = a * b;
	w = r;
	printf("* %ld\n", w);
	r = a & b;
	w = r;
	printf("& %ld\n", w);
	r = a | b;
	w = r;
	printf("| %ld\n", w);
	r = a ^ b;
	w = r;
	printf("^ %ld\n", w);
	r = a / b;
	w = r;
	printf("/ %ld\n", w);
	r = a % b;
	w = r;
	printf("%% %ld\n", w);
	r = ~a;
	w = r;
	printf("~ %ld\n", w);
	a = 100;
	b = (-128);
	r = a + b;
	w = r;
	printf("+ %ld\n", w);
	r = a - b;
	w = r;
	printf("- %ld\n", w);
	r = a * b;
	w = r;
	printf("* %ld\n", w);
	r = a & b;
	w = r;
	printf("& %ld\n", w);
	r = a | b;
	w = r;
	printf("| %ld\n", w);
	r = a ^ b;
	w = r;
	printf("^ %ld\n", w);
	r = a / b;
	w = r;
	printf("/ %ld\n", w);
	r = a % b;
	w = r;
	printf("%% %ld\n", w);
	r = ~a;
	w = r;
	printf("~ %ld\n", w);
	a = 100;
	b = 4611686018427387907;
	r = a + b;
	w = r;
	printf("+ %ld\n", w);
	r = a - b;
	w = r;
	printf("- %ld\n", w);
	r = a * b;
	w = r;
	printf("* %ld\n", w);
	r = a & b;
	w = r;
	printf("& %ld\n", w);
	r = a | b;
	w = r;
	printf("| %ld\n", w);
	r = a ^ b;
	w = r;
	printf("^ %ld\n", w);
	r = a / b;
	w = r;
	printf("/ %ld\n", w);
	r = a % b;
	w = r;
	printf("%% %ld\n", w);
	r = ~a;
	w = r;
	printf("~ %ld\n", w);
	a = (-128);
	b = 4611686018427387907;
	r = a + b;
	w = r;
	printf("+ %ld\n", w);
	r = a - b;
	w = r;
	printf("- %ld\n", w);
	r = a * b;
	w = r;
	printf("* %ld\n", w);
	r = a & b;
	w = r;
	printf("& %ld\n", w);
	r = a | b;
	w = r;
	printf("| %ld\n", w);
	r = a ^ b;
	w = r;
	printf("^ %ld\n", w);
	r = a / b;
	w = r;
	printf("/ %ld\n", w);
	r = a % b;
	w = r;
	printf("%% %ld\n", w);
	r = ~a;
	w = r;
	printf("~ %ld\n", w);
	a = (-128);
	b = (-1);
	r = a + b;
	w = r;
	printf("+ %ld\n", w);
	r = a - b;
	w = r;
	printf("- %ld\n", w);
	r = a * b;
	w = r;
	printf("* %ld\n", w);
	r = a & b;
	w = r;
	printf("& %ld\n", w);
	r = a | b;
	w = r;
	printf("| %ld\n", w);
	r = a ^ b;
	w = r;
	printf("^ %ld\n", w);
	r = a / b;
	w = r;
	printf("/ %ld\n", w);
	r = a % b;
	w = r;
	printf("%% %ld\n", w);
	r = ~a;
	w = r;
	printf("~ %ld\n", w);
	a = 9223372036854775807;
	b = (-1);
	r = a + b;
	w = r;
	printf("+ %ld\n", w);
	r = a - b;
	w = r;
	printf("- %ld\n", w);
	r = a * b;
	w = r;
	printf("* %ld\n", w);
	r = a & b;
	w = r;
	printf("& %ld\n", w);
	r = a | b;
	w = r;
	printf("| %ld\n", w);
	r = a ^ b;
	w = r;
	printf("^ %ld\n", w);
	r = a / b;
	w = r;
	printf("/ %ld\n", w);
	r = a % b;
	w = r;
	printf("%% %ld\n", w);
	r = ~a;
	w = r;
	printf("~ %ld\n", w);
	a = 9223372036854775807;
	b = 100;
	r = a + b;
	w = r;
	printf("+ %ld\n", w);
	r = a - b;
	w = r;
	printf("- %ld\n", w);
	r = a * b;
	w = r;
	printf("* %ld\n", w);
	r = a & b;
	w = r;
	printf("& %ld\n", w);
	r = a | b;
	w = r;
	printf("| %ld\n", w);
	r = a ^ b;
	w = r;
	printf("^ %ld\n", w);
	r = a / b;
	w = r;
	printf("/ %ld\n", w);
	r = a % b;
	w = r;
	printf("%% %ld\n", w);
	r = ~a;
	w = r;
	printf("~ %ld\n", w);
	a = (-9223372036854775807 - 1);
	b = 100;
	r = a + b;
	w = r;
	printf("+ %ld\n", w);
	r = a - b;
	w = r;
	printf("- %ld\n", w);
	r = a * b;
	w = r;
	printf("* %ld\n", w);
	r = a & b;
	w = r;
	printf("& %ld\n", w);
	r = a | b;
	w = r;
	printf("| %ld\n", w);
	r = a ^ b;
	w = r;
	printf("^ %ld\n", w);
	r = a / b;
	w = r;
	printf("/ %ld\n", w);
	r = a % b;
	w = r;
	printf("%% %ld\n", w);
	r = ~a;
	w = r;
	printf("~ %ld\n", w);
	a = (-9223372036854775807 - 1);
	b = (-9223372036854775807 - 1);
	r = a + b;
	w = r;
	printf("+ %ld\n", w);
	r = a - b;
	w = r;
	printf("- %ld\n", w);
	r = a * b;
	w = r;
	printf("* %ld\n", w);
	r = a & b;
	w = r;
	printf("& %ld\n", w);
	r = a | b;
	w = r;
	printf("| %ld\n", w);
	r = a ^ b;
	w = r;
	printf("^ %ld\n", w);
	r = a / b;
	w = r;
	printf("/ %ld\n", w);
	r = a % b;
	w = r;
	printf("%% %ld\n", w);
	r = ~a;
	w = r;
	printf("~ %ld\n", w);
	a = 4611686018427387907;
	b = (-9223372036854775807 - 1);
	r = a + b;
	w = r;
	printf("+ %ld\n", w);
	r = a - b;
	w = r;
	printf("- %ld\n", w);
	r = a * b;
	w = r;
	printf("* %ld\n", w);
	r = a & b;
	w = r;
	printf("& %ld\n", w);
	r = a | b;
	w = r;
	printf("| %ld\n", w);
	r = a ^ b;
	w = r;
	printf("^ %ld\n", w);
	r = a / b;
	w = r;
	printf("/ %ld\n", w);
	r = a % b;
	w = r;
	printf("%% %ld\n", w);
	r = ~a;
	w = r;
	printf("~ %ld\n", w);
	a = 4611686018427387907;
	b = 1;
	r = a + b;
	w = r;
	printf("+ %ld\n", w);
	r = a - b;
	w = r;
	printf("- %ld\n", w);
	r = a * b;
	w = r;
	printf("* %ld\n", w);
	r = a & b;
	w = r;
	printf("& %ld\n", w);
	r = a | b;
	w = r;
	printf("| %ld\n", w);
	r = a ^ b;
	w = r;
	printf("^ %ld\n", w);
	r = a / b;
	w = r;
	printf("/ %ld\n", w);
	r = a % b;
	w = r;
	printf("%% %ld\n", w);
	r = ~a;
	w = r;
	printf("~ %ld\n", w);
	a = 0;
	b = 0;
	r = a >> b;
	w = r;
	printf(">> %ld\n", w);
	r = a << b;
	w = r;
	printf("<< %ld\n", w);
	b = 1;
	r = a >> b;
	w = r;
	printf(">> %ld\n", w);
	r = a << b;
	w = r;
	printf("<< %ld\n", w);
	b = 3;
	r = a >> b;
	w = r;
	printf(">> %ld\n", w);
	r = a << b;
	w = r;
	printf("<< %ld\n", w);
	b = 31;
	r = a >> b;
	w = r;
	printf(">> %ld\n", w);
	r = a << b;
	w = r;
	printf("<< %ld\n", w);
	b = 62;
	r = a >> b;
	w = r;
	printf(">> %ld\n", w);
	r = a << b;
	w = r;
	printf("<< %ld\n", w);
	a = 1;
	b = 0;
	r = a >> b;
	w = r;
	printf(">> %ld\n", w);
	r = a << b;
	w = r;
	printf("<< %ld\n", w);
	b = 1;
	r = a >> b;
	w = r;
	printf(">> %ld\n", w);
	r = a << b;
	w = r;
	printf("<< %ld\n", w);
	b = 3;
	r = a >> b;
	w = r;
	printf(">> %ld\n", w);
	r = a << b;
	w = r;
	printf("<< %ld\n", w);
	b = 31;
	r = a >> b;
	w = r;
	printf(">> %ld\n", w);
	r = a << b;
	w = r;
	printf("<< %ld\n", w);
	b = 62;
	r = a >> b;
	w = r;
	printf(">> %ld\n", w);
	r = a << b;
	w = r;
	printf("<< %ld\n", w);
	a = (-1);
	b = 0;
	r = a >> b;
	w = r;
	printf(">> %ld\n", w);
	r = a << b;
	w = r;
	printf("<< %ld\n", w);
	b = 1;
	r = a >> b;
	w = r;
	printf(">> %ld\n", w);
	r = a << b;
	w = r;
	printf("<< %ld\n", w);
	b = 3;
	r = a >> b;
	w = r;
	printf(">> %ld\n", w);
	r = a << b;
	w = r;
	printf("<< %ld\n", w);
	b = 31;
	r = a >> b;
	w = r;
	printf(">> %ld\n", w);
	r = a << b;
	w = r;
	printf("<< %ld\n", w);
	b = 62;
	r = a >> b;
	w = r;
	printf(">> %ld\n", w);
	r = a << b;
	w = r;
	printf("<< %ld\n", w);
	a = 7;
	b = 0;
	r = a >> b;
	w = r;
	printf(">> %ld\n", w);
	r = a << b;
	w = r;
	printf("<< %ld\n", w);
	b = 1;
	r = a >> b;
	w = r;
	printf(">> %ld\n", w);
	r = a << b;
	w = r;
	printf("<< %ld\n", w);
	b = 3;
	r = a >> b;
	w = r;
	printf(">> %ld\n", w);
	r = a << b;
	w = r;
	printf("<< %ld\n", w);
	b = 31;
	r = a >> b;
	w = r;
	printf(">> %ld\n", w);
	r = a << b;
	w = r;
	printf("<< %ld\n", w);
	b = 62;
	r = a >> b;
	w = r;
	printf(">> %ld\n", w);
	r = a << b;
	w = r;
	printf("<< %ld\n", w);
	a = (-7);
	b = 0;
	r = a >> b;
	w = r;
	printf(">> %ld\n", w);
	r = a << b;
	w = r;
	printf("<< %ld\n", w);
	b = 1;
	r = a >> b;
	w = r;
	printf(">> %ld\n", w);
	r = a << b;
	w = r;
	printf("<< %ld\n", w);
	b = 3;
	r = a >> b;
	w = r;
	printf(">> %ld\n", w);
	r = a << b;
	w = r;
	printf("<< %ld\n", w);
	b = 31;
	r = a >> b;
	w = r;
	printf(">> %ld\n", w);
	r = a << b;
	w = r;
	printf("<< %ld\n", w);
	b = 62;
	r = a >> b;
	w = r;
	printf(">> %ld\n", w);
	r = a << b;
	w = r;
	printf("<< %ld\n", w);
	a = 100;
	b = 0;
	r = a >> b;
	w = r;
	printf(">> %ld\n", w);
	r = a << b;
	w = r;
	printf("<< %ld\n", w);
	b = 1;
	r = a >> b;
	w = r;
	printf(">> %ld\n", w);
	r = a << b;
	w = r;
	printf("<< %ld\n", w);
	b = 3;
	r = a >> b;
	w = r;
	printf(">> %ld\n", w);
	r = a << b;
	w = r;
	printf("<< %ld\n", w);
	b = 31;
	r = a >> b;
	w = r;
	printf(">> %ld\n", w);
	r = a << b;
	w = r;
	printf("<< %ld\n", w);
	b = 62;
	r = a >> b;
	w = r;
	printf(">> %ld\n", w);
	r = a << b;
	w = r;
	printf("<< %ld\n", w);
	a = (-128);
	b = 0;
	r = a >> b;
	w = r;
	printf(">> %ld\n", w);
	r = a << b;
	w = r;
	printf("<< %ld\n", w);
	b = 1;
	r = a >> b;
	w = r;
	printf(">> %ld\n", w);
	r = a << b;
	w = r;
	printf("<< %ld\n", w);
	b = 3;
	r = a >> b;
	w = r;
	printf(">> %ld\n", w);
	r = a << b;
	w = r;
	printf("<< %ld\n", w);
	b = 31;
	r = a >> b;
	w = r;
	printf(">> %ld\n", w);
	r = a << b;
	w = r;
	printf("<< %ld\n", w);
	b = 62;
	r = a >> b;
	w = r;
	printf(">> %ld\n", w);
	r = a << b;
	w = r;
	printf("<< %ld\n", w);
	a = 9223372036854775807;
	b = 0;
	r = a >> b;
	w = r;
	printf(">> %ld\n", w);
	r = a << b;
	w = r;
	printf("<< %ld\n", w);
	b = 1;
	r = a >> b;
	w = r;
	printf(">> %ld\n", w);
	r = a << b;
	w = r;
	printf("<< %ld\n", w);
	b = 3;
	r = a >> b;
	w = r;
	printf(">> %ld\n", w);
	r = a << b;
	w = r;
	printf("<< %ld\n", w);
	b = 31;
	r = a >> b;
	w = r;
	printf(">> %ld\n", w);
	r = a << b;
	w = r;
	printf("<< %ld\n", w);
	b = 62;
	r = a >> b;
	w = r;
	printf(">> %ld\n", w);
	r = a << b;
	w = r;
	printf("<< %ld\n", w);
	a = (-9223372036854775807 - 1);
	b = 0;
	r = a >> b;
	w = r;
	printf(">> %ld\n", w);
	r = a << b;
	w = r;
	printf("<< %ld\n", w);
	b = 1;
	r = a >> b;
	w = r;
	printf(">> %ld\n", w);
	r = a << b;
	w = r;
	printf("<< %ld\n", w);
	b = 3;
	r = a >> b;
	w = r;
	printf(">> %ld\n", w);
	r = a << b;
	w = r;
	printf("<< %ld\n", w);
	b = 31;
	r = a >> b;
	w = r;
	printf(">> %ld\n", w);
	r = a << b;
	w = r;
	printf("<< %ld\n", w);
	b = 62;
	r = a >> b;
	w = r;
	printf(">> %ld\n", w);
	r = a << b;
	w = r;
	printf("<< %ld\n", w);
	a = 4611686018427387907;
	b = 0;
	r = a >> b;
	w = r;
	printf(">> %ld\n", w);
	r = a << b;
	w = r;
	printf("<< %ld\n", w);
	b = 1;
	r = a >> b;
	w = r;
	printf(">> %ld\n", w);
	r = a << b;
	w = r;
	printf("<< %ld\n", w);
	b = 3;
	r = a >> b;
	w = r;
	printf(">> %ld\n", w);
	r = a << b;
	w = r;
	printf("<< %ld\n", w);
	b = 31;
	r = a >> b;
	w = r;
	printf(">> %ld\n", w);
	r = a << b;
	w = r;
	printf("<< %ld\n", w);
	b = 62;
	r = a >> b;
	w = r;
	printf(">> %ld\n", w);
	r = a << b;
	w = r;
	printf("<< %ld\n", w);
	a = 0;
	r = a + 1;
	w = r;
	printf("+c %ld\n", w);
	b = 1;
	r = 0 + b;
	w = r;
	printf("c+ %ld\n", w);
	a = 0;
	r = a - 1;
	w = r;
	printf("-c %ld\n", w);
	b = 1;
	r = 0 - b;
	w = r;
	printf("c- %ld\n", w);
	a = 0;
	r = a * 1;
	w = r;
	printf("*c %ld\n", w);
	b = 1;
	r = 0 * b;
	w = r;
	printf("c* %ld\n", w);
	a = 0;
	r = a / 1;
	w = r;
	printf("/c %ld\n", w);
	b = 1;
	r = 0 / b;
	w = r;
	printf("c/ %ld\n", w);
	a = 0;
	r = a % 1;
	w = r;
	printf("%%c %ld\n", w);
	b = 1;
	r = 0 % b;
	w = r;
	printf("c%% %ld\n", w);
	a = 0;
	r = a & 1;
	w = r;
	printf("&c %ld\n", w);
	b = 1;
	r = 0 & b;
	w = r;
	printf("c& %ld\n", w);
	a = 0;
	r = a | 1;
	w = r;
	printf("|c %ld\n", w);
	b = 1;
	r = 0 | b;
	w = r;
	printf("c| %ld\n", w);
	a = 0;
	r = a ^ 1;
	w = r;
	printf("^c %ld\n", w);
	b = 1;
	r = 0 ^ b;
	w = r;
	printf("c^ %ld\n", w);
	a = 7;
	r = a + 7;
	w = r;
	printf("+c %ld\n", w);
	b = 7;
	r = 7 + b;
	w = r;
	printf("c+ %ld\n", w);
	a = 7;
	r = a - 7;
	w = r;
	printf("-c %ld\n", w);
	b = 7;
	r = 7 - b;
	w = r;
	printf("c- %ld\n", w);
	a = 7;
	r = a * 7;
	w = r;
	printf("*c %ld\n", w);
	b = 7;
	r = 7 * b;
	w = r;
	printf("c* %ld\n", w);
	a = 7;
	r = a / 7;
	w = r;
	printf("/c %ld\n", w);
	b = 7;
	r = 7 / b;
	w = r;
	printf("c/ %ld\n", w);
	a = 7;
	r = a % 7;
	w = r;
	printf("%%c %ld\n", w);
	b = 7;
	r = 7 % b;
	w = r;
	printf("c%% %ld\n", w);
	a = 7;
	r = a & 7;
	w = r;
	printf("&c %ld\n", w);
	b = 7;
	r = 7 & b;
	w = r;
	printf("c& %ld\n", w);
	a = 7;
	r = a | 7;
	w = r;
	printf("|c %ld\n", w);
	b = 7;
	r = 7 | b;
	w = r;
	printf("c| %ld\n", w);
	a = 7;
	r = a ^ 7;
	w = r;
	printf("^c %ld\n", w);
	b = 7;
	r = 7 ^ b;
	w = r;
	printf("c^ %ld\n", w);
	return 0;
}

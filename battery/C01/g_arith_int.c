int printf(const char *f, ...);
int main()
{
	int a;
	int b;
	int r;
	long w;
	a = 0;
	b = 1;
	r = a + b;
	w = r;
	printf("+ %ld\n", w);
	r = a - b;
	w = r;
	printf("- %ld\n", w);
	r = a * b;
	w = r;
	printf("* %ld\n", w);
	r = a & b;
	w = r;
	printf("& %ld\n", w);
	r = a | b;
	w = r;
	printf("| %ld\n", w);
	r = a ^ b;
	w = r;
	printf("^ %ld\n", w);
	r = a / b;
	w = r;
	printf("/ %ld\n", w);
	r = a % b;
	w = r;
	printf("%% %ld\n", w);
	r = ~a;
	w = r;
	printf("~ %ld\n", w);
	a = 0;
	b = (-7);
	r = a + b;
	w = r;
	printf("+ %ld\n", w);
	r = a - b;
	w = r;
	printf("- %ld\n", w);
	r = a * b;
	w = r;
	printf("* %ld\n", w);
	r = a & b;
	w = r;
	printf("& %ld\n", w);
	r = a | b;
	w = r;
	printf("| %ld\n", w);
	r = a ^ b;
	w = r;
	printf("^ %ld\n", w);
	r = a / b;
	w = r;
	printf("/ %ld\n", w);
	r = a % b;
	w = r;
	printf("%% %ld\n", w);
	r = ~a;
	w = r;
	printf("~ %ld\n", w);
	a = 1;
	b = (-7);
	r = a + b;
	w = r;
	printf("+ %ld\n", w);
	r = a - b;
	w = r;
	printf("- %ld\n", w);
	r = a * b;
	w = r;
	printf("* %ld\n", w);
	r = a & b;
	w = r;
	printf("& %ld\n", w);
	r = a | b;
	w = r;
	printf("| %ld\n", w);
	r = a ^ b;
	w = r;
	printf("^ %ld\n", w);
	r = a / b;
	w = r;
	printf("/ %ld\n", w);
	r = a % b;
	w = r;
	printf("%% %ld\n", w);
	r = ~a;
	w = r;
	printf("~ %ld\n", w);
	a = 1;
	b = 2147483647;
	r = a + b;
	w = r;
	printf("+ %ld\n", w);
	r = a - b;
	w = r;
	printf("- %ld\n", w);
	r = a * b;
	w = r;
	printf("* %ld\n", w);
	r = a & b;
	w = r;
	printf("& %ld\n", w);
	r = a | b;
	w = r;
	printf("| %ld\n", w);
	r = a ^ b;
	w = r;
	printf("^ %ld\n", w);
	r = a / b;
	w = r;
	printf("/ %ld\n", w);
	r = a % b;
	w = r;
	printf("%% %ld\n", w);
	r = ~a;
	w = r;
	printf("~ %ld\n", w);
	a = (-1);
	b = 2147483647;
	r = a + b;
	w = r;
	printf("+ %ld\n", w);
	r = a - b;
	w = r;
	printf("- %ld\n", w);
	r = a * b;
	w = r;
	printf("* %ld\n", w);
	r = a & b;
	w = r;
	printf("& %ld\n", w);
	r = a | b;
	w = r;
	printf("| %ld\n", w);
	r = a ^ b;
	w = r;
	printf("^ %ld\n", w);
	r = a / b;
	w = r;
	printf("/ %ld\n", w);
	r = a % b;
	w = r;
	printf("%% %ld\n", w);
	r = ~a;
	w = r;
	printf("~ %ld\n", w);
	a = (-1);
	b = 0;
	r = a + b;
	w = r;
	printf("+ %ld\n", w);
	r = a - b;
	w = r;
	printf("- %ld\n", w);
	r = a * b;
	w = r;
	printf("* %ld\n", w);
	r = a & b;
	w = r;
	printf("& %ld\n", w);
	r = a | b;
	w = r;
	printf("| %ld\n", w);
	r = a ^ b;
	w = r;
	printf("^ %ld\n", w);
	r = ~a;
	w = r;
	printf("~ %ld\n", w);
	a = 7;
	b = 0;
	r = a + b;
	w = r;
	printf("+ %ld\n", w);
	r = a - b;
	w = r;
	printf("- %ld\n", w);
	r = a * b;
	w = r;
	printf("* %ld\n", w);
	r = a & b;
	w = r;
	printf("& %ld\n", w);
	r = a | b;
	w = r;
	printf("| %ld\n", w);
	r = a ^ b;
	w = r;
	printf("^ %ld\n", w);
	r = ~a;
	w = r;
	printf("~ %ld\n", w);
	a = 7;
	b = 7;
	r = a + b;
	w = r;
	printf("+ %ld\n", w);
	r = a - b;
	w = r;
	printf("- %ld\n", w);
	r = a * b;
	w = r;
	printf("* %ld\n", w);
	r = a & b;
	w = r;
	printf("& %ld\n", w);
	r = a | b;
	w = r;
	printf("| %ld\n", w);
	r = a ^ b;
	w = r;
	printf("^ %ld\n", w);
	r = a / b;
	w = r;
	printf("/ %ld\n", w);
	r = a % b;
	w = r;
	printf("%% %ld\n", w);
	r = ~a;
	w = r;
	printf("~ %ld\n", w);
	a = (-7);
	b = 7;
	r = a + b;
	w = r;
	printf("+ %ld\n", w);
	r = a - b;
	w = r;
	printf("- %ld\n", w);
	r = a * b;
	w = r;
	printf("* %ld\n", w);
	r = a & b;
	w = r;
	printf("& %ld\n", w);
	r = a | b;
	w = r;
	printf("| %ld\n", w);
	r = a ^ b;
	w = r;
	printf("^ %ld\n", w);
	r = a / b;
	w = r;
	printf("/ %ld\n", w);
	r = a % b;
	w = r;
	printf("%% %ld\n", w);
	r = ~a;
	w = r;
	printf("~ %ld\n", w);
	a = (-7);
	b = (-128);
	r = a + b;
	w = r;
	printf("+ %ld\n", w);
	r = a - b;
	w = r;
	printf("- %ld\n", w);
	r = a * b;
	w = r;
	printf("* %ld\n", w);
	r = a & b;
	w = r;
	printf("& %ld\n", w);
	r = a | b;
	w = r;
	printf("| %ld\n", w);
	r = a ^ b;
	w = r;
	printf("^ %ld\n", w);
	r = a / b;
	w = r;
	printf("/ %ld\n", w);
	r = a % b;
	w = r;
	printf("%% %ld\n", w);
	r = ~a;
	w = r;
	printf("~ %ld\n", w);
	a = 100;
	b = (-128);
	r = a + b;
	w = r;
	printf("+ %ld\n", w);
	r = a - b;
	w = r;
	printf("- %ld\n", w);
	r = a * b;
	w = r;
	printf("* %ld\n", w);
	r = a & b;
	w = r;
	printf("& %ld\n", w);
	r = a | b;
	w = r;
	printf("| %ld\n", w);
	r = a ^ b;
	w = r;
	printf("^ %ld\n", w);
	r = a / b;
	w = r;
	printf("/ %ld\n", w);
	r = a % b;
	w = r;
	printf("%% %ld\n", w);
	r = ~a;
	w = r;
	printf("~ %ld\n", w);
	a = 100;
	b = 1073741827;
	r = a + b;
	w = r;
	printf("+ %ld\n", w);
	r = a - b;
	w = r;
	printf("- %ld\n", w);
	r = a * b;
	w = r;
	printf("* %ld\n", w);
	r = a & b;
	w = r;
	printf("& %ld\n", w);
	r = a | b;
	w = r;
	printf("| %ld\n", w);
	r = a ^ b;
	w = r;
	printf("^ %ld\n", w);
	r = a / b;
	w = r;
	printf("/ %ld\n", w);
	r = a % b;
	w = r;
	printf("%% %ld\n", w);
	r = ~a;
	w = r;
	printf("~ %ld\n", w);
	a = (-128);
	b = 1073741827;
	r = a + b;
	w = r;
	printf("+ %ld\n", w);
	r = a - b;
	w = r;
	printf("- %ld\n", w);
	r = a * b;
	w = r;
	printf("* %ld\n", w);
	r = a & b;
	w = r;
	printf("& %ld\n", w);
	r = a | b;
	w = r;
	printf("| %ld\n", w);
	r = a ^ b;
	w = r;
	printf("^ %ld\n", w);
	r = a / b;
	w = r;
	printf("/ %ld\n", w);
	r = a % b;
	w = r;
	printf("%% %ld\n", w);
	r = ~a;
	w = r;
	printf("~ %ld\n", w);
	a = (-128);
	b = (-1);
	r = a + b;
	w = r;
	printf("+ %ld\n", w);
	r = a - b;
	w = r;
	printf("- %ld\n", w);
	r = a * b;
	w = r;
	printf("* %ld\n", w);
	r = a & b;
	w = r;
	printf("& %ld\n", w);
	r = a | b;
	w = r;
	printf("| %ld\n", w);
	r = a ^ b;
	w = r;
	printf("^ %ld\n", w);
	r = a / b;
	w = r;
	printf("/ %ld\n", w);
	r = a % b;
	w = r;
	printf("%% %ld\n", w);
	r = ~a;
	w = r;
	printf("~ %ld\n", w);
	a = 2147483647;
	b = (-1);
	r = a + b;
	w = r;
	printf("+ %ld\n", w);
	r = a - b;
	w = r;
	printf("- %ld\n", w);
	r = a * b;
	w = r;
	printf("* %ld\n", w);
	r = a & b;
	w = r;
	printf("& %ld\n", w);
	r = a | b;
	w = r;
	printf("| %ld\n", w);
	r = a ^ b;
	w = r;
	printf("^ %ld\n", w);
	r = a / b;
	w = r;
	printf("/ %ld\n", w);
	r = a % b;
	w = r;
	printf("%% %ld\n", w);
	r = ~a;
	w = r;
	printf("~ %ld\n", w);
	a = 2147483647;
	b = 100;
	r = a + b;
	w = r;
	printf("+ %ld\n", w);
	r = a - b;
	w = r;
	printf("- %ld\n", w);
	r = a * b;
	w = r;
	printf("* %ld\n", w);
	r = a & b;
	w = r;
	printf("& %ld\n", w);
	r = a | b;
	w = r;
	printf("| %ld\n", w);
	r = a ^ b;
	w = r;
	printf("^ %ld\n", w);
	r = a / b;
	w = r;
	printf("/ %ld\n", w);
	r = a % b;
	w = r;
	printf("%% %ld\n", w);
	r = ~a;
	w = r;
	printf("~ %ld\n", w);
	a = (-2147483648);
	b = 100;
	r = a + b;
	w = r;
	printf("+ %ld\n", w);
	r = a - b;
	w = r;
	printf("- %ld\n", w);
	r = a * b;
	w = r;
	printf("* %ld\n", w);
	r = a & b;
	w = r;
	printf("& %ld\n", w);
	r = a | b;
	w = r;
	printf("| %ld\n", w);
	r = a ^ b;
	w = r;
	printf("^ %ld\n", w);
	r = a / b;
	w = r;
	printf("/ %ld\n", w);
	r = a % b;
	w = r;
	printf("%% %ld\n", w);
	r = ~a;
	w = r;
	printf("~ %ld\n", w);
	a = (-2147483648);
	b = (-2147483648);
	r = a + b;
	w = r;
	printf("+ %ld\n", w);
	r = a - b;
	w = r;
	printf("- %ld\n", w);
	r = a * b;
	w = r;
	printf("* %ld\n", w);
	r = a & b;
	w = r;
	printf("& %ld\n", w);
	r = a | b;
	w = r;
	printf("| %ld\n", w);
	r = a ^ b;
	w = r;
	printf("^ %ld\n", w);
	r = a / b;
	w = r;
	printf("/ %ld\n", w);
	r = a % b;
	w = r;
	printf("%% %ld\n", w);
	r = ~a;
	w = r;
	printf("~ %ld\n", w);
	a = 1073741827;
	b = (-2147483648);
	r = a + b;
	w = r;
	printf("+ %ld\n", w);
	r = a - b;
	w = r;
	printf("- %ld\n", w);
	r = a * b;
	w = r;
	printf("* %ld\n", w);
	r = a & b;
	w = r;
	printf("& %ld\n", w);
	r = a | b;
	w = r;
	printf("| %ld\n", w);
	r = a ^ b;
	w = r;
	printf("^ %ld\n", w);
	r = a / b;
	w = r;
	printf("/ %ld\n", w);
	r = a % b;
	w = r;
	printf("%% %ld\n", w);
	r = ~a;
	w = r;
	printf("~ %ld\n", w);
	a = 1073741827;
	b = 1;
	r = a + b;
	w = r;
	printf("+ %ld\n", w);
	r = a - b;
	w = r;
	printf("- %ld\n", w);
	r = a * b;
	w = r;
	printf("* %ld\n", w);
	r = a & b;
	w = r;
	printf("& %ld\n", w);
	r = a | b;
	w = r;
	printf("| %ld\n", w);
	r = a ^ b;
	w = r;
	printf("^ %ld\n", w);
	r = a / b;
	w = r;
	printf("/ %ld\n", w);
	r = a % b;
	w = r;
	printf("%% %ld\n", w);
	r = ~a;
	w = r;
	printf("~ %ld\n", w);
	a = 0;
	b = 0;
	r = a >> b;
	w = r;
	printf(">> %ld\n", w);
	r = a << b;
	w = r;
	printf("<< %ld\n", w);
	b = 1;
	r = a >> b;
	w = r;
	printf(">> %ld\n", w);
	r = a << b;
	w = r;
	printf("<< %ld\n", w);
	b = 3;
	r = a >> b;
	w = r;
	printf(">> %ld\n", w);
	r = a << b;
	w = r;
	printf("<< %ld\n", w);
	b = 15;
	r = a >> b;
	w = r;
	printf(">> %ld\n", w);
	r = a << b;
	w = r;
	printf("<< %ld\n", w);
	b = 30;
	r = a >> b;
	w = r;
	printf(">> %ld\n", w);
	r = a << b;
	w = r;
	printf("<< %ld\n", w);
	a = 1;
	b = 0;
	r = a >> b;
	w = r;
	printf(">> %ld\n", w);
	r = a << b;
	w = r;
	printf("<< %ld\n", w);
	b = 1;
	r = a >> b;
	w = r;
	printf(">> %ld\n", w);
	r = a << b;
	w = r;
	printf("<< %ld\n", w);
	b = 3;
	r = a >> b;
	w = r;
	printf(">> %ld\n", w);
	r = a << b;
	w = r;
	printf("<< %ld\n", w);
	b = 15;
	r = a >> b;
	w = r;
	printf(">> %ld\n", w);
	r = a << b;
	w = r;
	printf("<< %ld\n", w);
	b = 30;
	r = a >> b;
	w = r;
	printf(">> %ld\n", w);
	r = a << b;
	w = r;
	printf("<< %ld\n", w);
	a = (-1);
	b = 0;
	r = a >> b;
	w = r;
	printf(">> %ld\n", w);
	r = a << b;
	w = r;
	printf("<< %ld\n", w);
	b = 1;
	r = a >> b;
	w = r;
	printf(">> %ld\n", w);
	r = a << b;
	w = r;
	printf("<< %ld\n", w);
	b = 3;
	r = a >> b;
	w = r;
	printf(">> %ld\n", w);
	r = a << b;
	w = r;
	printf("<< %ld\n", w);
	b = 15;
	r = a >> b;
	w = r;
	printf(">> %ld\n", w);
	r = a << b;
	w = r;
	printf("<< %ld\n", w);
	b = 30;
	r = a >> b;
	w = r;
	printf(">> %ld\n", w);
	r = a << b;
	w = r;
	printf("<< %ld\n", w);
	a = 7;
	b = 0;
	r = a >> b;
	w = r;
	printf(">> %ld\n", w);
	r = a << b;
	w = r;
	printf("<< %ld\n", w);
	b = 1;
	r = a >> b;
	w = r;
	printf(">> %ld\n", w);
	r = a << b;
	w = r;
	printf("<< %ld\n", w);
	b = 3;
	r = a >> b;
	w = r;
	printf(">> %ld\n", w);
	r = a << b;
	w = r;
	printf("<< %ld\n", w);
	b = 15;
	r = a >> b;
	w = r;
	printf(">> %ld\n", w);
	r = a << b;
	w = r;
	printf("<< %ld\n", w);
	b = 30;
	r = a >> b;
	w = r;
	printf(">> %ld\n", w);
	r = a << b;
	w = r;
	printf("<< %ld\n", w);
	a = (-7);
	b = 0;
	r = a >> b;
	w = r;
	printf(">> %ld\n", w);
	r = a << b;
	w = r;
	printf("<< %ld\n", w);
	b = 1;
	r = a >> b;
	w = r;
	printf(">> %ld\n", w);
	r = a << b;
	w = r;
	printf("<< %ld\n", w);
	b = 3;
	r = a >> b;
	w = r;
	printf(">> %ld\n", w);
	r = a << b;
	w = r;
	printf("<< %ld\n", w);
	b = 15;
	r = a >> b;
	w = r;
	printf(">> %ld\n", w);
	r = a << b;
	w = r;
	printf("<< %ld\n", w);
	b = 30;
	r = a >> b;
	w = r;
	printf(">> %ld\n", w);
	r = a << b;
	w = r;
	printf("<< %ld\n", w);
	a = 100;
	b = 0;
	r = a >> b;
	w = r;
	printf(">> %ld\n", w);
	r = a << b;
	w = r;
	printf("<< %ld\n", w);
	b = 1;
	r = a >> b;
	w = r;
	printf(">> %ld\n", w);
	r = a << b;
	w = r;
	printf("<< %ld\n", w);
	b = 3;
	r = a >> b;
	w = r;
	printf(">> %ld\n", w);
	r = a << b;
	w = r;
	printf("<< %ld\n", w);
	b = 15;
	r = a >> b;
	w = r;
	printf(">> %ld\n", w);
	r = a << b;
	w = r;
	printf("<< %ld\n", w);
	b = 30;
	r = a >> b;
	w = r;
	printf(">> %ld\n", w);
	r = a << b;
	w = r;
	printf("<< %ld\n", w);
	a = (-128);
	b = 0;
	r = a >> b;
	w = r;
	printf(">> %ld\n", w);
	r = a << b;
	w = r;
	printf("<< %ld\n", w);
	b = 1;
	r = a >> b;
	w = r;
	printf(">> %ld\n", w);
	r = a << b;
	w = r;
	printf("<< %ld\n", w);
	b = 3;
	r = a >> b;
	w = r;
	printf(">> %ld\n", w);
	r = a << b;
	w = r;
	printf("<< %ld\n", w);
	b = 15;
	r = a >> b;
	w = r;
	printf(">> %ld\n", w);
	r = a << b;
	w = r;
	printf("<< %ld\n", w);
	b = 30;
	r = a >> b;
	w = r;
	printf(">> %ld\n", w);
	r = a << b;
	w = r;
	printf("<< %ld\n", w);
	a = 2147483647;
	b = 0;
	r = a >> b;
	w = r;
	printf(">> %ld\n", w);
	r = a << b;
	w = r;
	printf("<< %ld\n", w);
	b = 1;
	r = a >> b;
	w = r;
	printf(">> %ld\n", w);
	r = a << b;
	w = r;
	printf("<< %ld\n", w);
	b = 3;
	r = a >> b;
	w = r;
	printf(">> %ld\n", w);
	r = a << b;
	w = r;
	printf("<< %ld\n", w);
	b = 15;
	r = a >> b;
	w = r;
	printf(">> %ld\n", w);
	r = a << b;
	w = r;
	printf("<< %ld\n", w);
	b = 30;
	r = a >> b;
	w = r;
	printf(">> %ld\n", w);
	r = a << b;
	w = r;
	printf("<< %ld\n", w);
	a = (-2147483648);
	b = 0;
	r = a >> b;
	w = r;
	printf(">> %ld\n", w);
	r = a << b;
	w = r;
	printf("<< %ld\n", w);
	b = 1;
	r = a >> b;
	w = r;
	printf(">> %ld\n", w);
	r = a << b;
	w = r;
	printf("<< %ld\n", w);
	b = 3;
	r = a >> b;
	w = r;
	printf(">> %ld\n", w);
	r = a << b;
	w = r;
	printf("<< %ld\n", w);
	b = 15;
	r = a >> b;
	w = r;
	printf(">> %ld\n", w);
	r = a << b;
	w = r;
	printf("<< %ld\n", w);
	b = 30;
	r = a >> b;
	w = r;
	printf(">> %ld\n", w);
	r = a << b;
	w = r;
	printf("<< %ld\n", w);
	a = 1073741827;
	b = 0;
	r = a >> b;
	w = r;
	printf(">> %ld\n", w);
	r = a << b;
	w = r;
	printf("<< %ld\n", w);
	b = 1;
	r = a >> b;
	w = r;
	printf(">> %ld\n", w);
	r = a << b;
	w = r;
	printf("<< %ld\n", w);
	b = 3;
	r = a >> b;
	w = r;
	printf(">> %ld\n", w);
	r = a << b;
	w = r;
	printf("<< %ld\n", w);
	b = 15;
	r = a >> b;
	w = r;
	printf(">> %ld\n", w);
	r = a << b;
	w = r;
	printf("<< %ld\n", w);
	b = 30;
	r = a >> b;
	w = r;
	printf(">> %ld\n", w);
	r = a << b;
	w = r;
	printf("<< %ld\n", w);
	a = 0;
	r = a + 1;
	w = r;
	printf("+c %ld\n", w);
	b = 1;
	r = 0 + b;
	w = r;
	printf("c+ %ld\n", w);
	a = 0;
	r = a - 1;
	w = r;
	printf("-c %ld\n", w);
	b = 1;
	r = 0 - b;
	w = r;
	printf("c- %ld\n", w);
	a = 0;
	r = a * 1;
	w = r;
	printf("*c %ld\n", w);
	b = 1;
	r = 0 * b;
	w = r;
	printf("c* %ld\n", w);
	a = 0;
	r = a / 1;
	w = r;
	printf("/c %ld\n", w);
	b = 1;
	r = 0 / b;
	w = r;
	printf("c/ %ld\n", w);
	a = 0;
	r = a % 1;
	w = r;
	printf("%%c %ld\n", w);
	b = 1;
	r = 0 % b;
	w = r;
	printf("c%% %ld\n", w);
	a = 0;
	r = a & 1;
	w = r;
	printf("&c %ld\n", w);
	b = 1;
	r = 0 & b;
	w = r;
	printf("c& %ld\n", w);
	a = 0;
	r = a | 1;
	w = r;
	printf("|c %ld\n", w);
	b = 1;
	r = 0 | b;
	w = r;
	printf("c| %ld\n", w);
	a = 0;
	r = a ^ 1;
	w = r;
	printf("^c %ld\n", w);
	b = 1;
	r = 0 ^ b;
	w = r;
	printf("c^ %ld\n", w);
	a = 1;
	r = a + 2147483647;
	w = r;
	printf("+c %ld\n", w);
	b = 2147483647;
	r = 1 + b;
	w = r;
	printf("c+ %ld\n", w);
	a = 1;
	r = a - 2147483647;
	w = r;
	printf("-c %ld\n", w);
	b = 2147483647;
	r = 1 - b;
	w = r;
	printf("c- %ld\n", w);
	a = 1;
	r = a * 2147483647;
	w = r;
	printf("*c %ld\n", w);
	b = 2147483647;
	r = 1 * b;
	w = r;
	printf("c* %ld\n", w);
	a = 1;
	r = a / 2147483647;
	w = r;
	printf("/c %ld\n", w);
	b = 2147483647;
	r = 1 / b;
	w = r;
	printf("c/ %ld\n", w);
	a = 1;
	r = a % 2147483647;
	w = r;
	printf("%%c %ld\n", w);
	b = 2147483647;
	r = 1 % b;
	w = r;
	printf("c%% %ld\n", w);
	a = 1;
	r = a & 2147483647;
	w = r;
	printf("&c %ld\n", w);
	b = 2147483647;
	r = 1 & b;
	w = r;
	printf("c& %ld\n", w);
	a = 1;
	r = a | 2147483647;
	w = r;
	printf("|c %ld\n", w);
	b = 2147483647;
	r = 1 | b;
	w = r;
	printf("c| %ld\n", w);
	a = 1;
	r = a ^ 2147483647;
	w = r;
	printf("^c %ld\n", w);
	b = 2147483647;
	r = 1 ^ b;
	w = r;
	printf("c^ %ld\n", w);
	a = 7;
	r = a + 7;
	w = r;
	printf("+c %ld\n", w);
	b = 7;
	r = 7 + b;
	w = r;
	printf("c+ %ld\n", w);
	a = 7;
	r = a - 7;
	w = r;
	printf("-c %ld\n", w);
	b = 7;
	r = 7 - b;
	w = r;
	printf("c- %ld\n", w);
	a = 7;
	r = a * 7;
	w = r;
	printf("*c %ld\n", w);
	b = 7;
	r = 7 * b;
	w = r;
	printf("c* %ld\n", w);
	a = 7;
	r = a / 7;
	w = r;
	printf("/c %ld\n", w);
	b = 7;
	r = 7 / b;
	w = r;
	printf("c/ %ld\n", w);
	a = 7;
	r = a % 7;
	w = r;
	printf("%%c %ld\n", w);
	b = 7;
	r = 7 % b;
	w = r;
	printf("c%% %ld\n", w);
	a = 7;
	r = a & 7;
	w = r;
	printf("&c %ld\n", w);
	b = 7;
	r = 7 & b;
	w = r;
	printf("c& %ld\n", w);
	a = 7;
	r = a | 7;
	w = r;
	printf("|c %ld\n", w);
	b = 7;
	r = 7 | b;
	w = r;
	printf("c| %ld\n", w);
	a = 7;
	r = a ^ 7;
	w = r;
	printf("^c %ld\n", w);
	b = 7;
	r = 7 ^ b;
	w = r;
	printf("c^ %ld\n", w);
	return 0;
}

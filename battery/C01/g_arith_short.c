int printf(const char *f, ...);
int main()
{
	short a;
	short b;
	short r;
	long w;
	a = 0;
	b = 1;
	r = a + b;
	w = r;
	printf("+ %ld\n", w);
	r = a - b;
	w = r;
	printf("- %ld\n", w);
	r = a * b;
	w = r;
	printf("* %ld\n", w);
	r = a & b;
	w = r;
	printf("& %ld\n", w);
	r = a | b;
	w = r;
	printf("| %ld\n", w);
	r = a ^ b;
	w = r;
	printf("^ %ld\n", w);
	r = a / b;
	w = r;
	printf("/ %ld\n", w);
	r = a % b;
	w = r;
	printf("%% %ld\n", w);
	r = ~a;
	w = r;
	printf("~ %ld\n", w);
	a = 0;
	b = (-7);
	r = a + b;
	w = r;
	printf("+ %ld\n", w);
	r = a - b;
	w = r;
	printf("- %ld\n", w);
	r = a * b;
	w = r;
	printf("* %ld\n", w);
	r = a & b;
	w = r;
	printf("& %ld\n", w);
	r = a | b;
	w = r;
	printf("| %ld\n", w);
	r = a ^ b;
	w = r;
	printf("^ %ld\n", w);
	r = a / b;
	w = r;
	printf("/ %ld\n", w);
	r = a % b;
	w = r;
	printf("%% %ld\n", w);
	r = ~a;
	w = r;
	printf("~ %ld\n", w);
	a = 1;
	b = (-7);
	r = a + b;
	w = r;
	printf("+ %ld\n", w);
	r = a - b;
	w = r;
	printf("- %ld\n", w);
	r = a * b;
	w = r;
	printf("* %ld\n", w);
	r = a & b;
	w = r;
	printf("& %ld\n", w);
	r = a | b;
	w = r;
	printf("| %ld\n", w);
	r = a ^ b;
	w = r;
	printf("^ %ld\n", w);
	r = a / b;
	w = r;
	printf("/ %ld\n", w);
	r = a % b;
	w = r;
	printf("%% %ld\n", w);
	r = ~a;
	w = r;
	printf("~ %ld\n", w);
	a = 1;
	b = 32767;
	r = a + b;
	w = r;
	printf("+ %ld\n", w);
	r = a - b;
	w = r;
	printf("- %ld\n", w);
	r = a * b;
	w = r;
	printf("* %ld\n", w);
	r = a & b;
	w = r;
	printf("& %ld\n", w);
	r = a | b;
	w = r;
	printf("| %ld\n", w);
	r = a ^ b;
	w = r;
	printf("^ %ld\n", w);
	r = a / b;
	w = r;
	printf("/ %ld\n", w);
	r = a % b;
	w = r;
	printf("%% %ld\n", w);
	r = ~a;
	w = r;
	printf("~ %ld\n", w);
	a = (-1);
	b = 32767;
	r = a + b;
	w = r;
	printf("+ %ld\n", w);
	r = a - b;
	w = r;
	printf("- %ld\n", w);
	r = a * b;
	w = r;
	printf("* %ld\n", w);
	r = a & b;
	w = r;
	printf("& %ld\n", w);
	r = a | b;
	w = r;
	printf("| %ld\n", w);
	r = a ^ b;
	w = r;
	printf("^ %ld\n", w);
	r = a / b;
	w = r;
	printf("/ %ld\n", w);
	r = a % b;
	w = r;
	printf("%% %ld\n", w);
	r = ~a;
	w = r;
	printf("~ %ld\n", w);
	a = (-1);
	b = 0;
	r = a + b;
	w = r;
	printf("+ %ld\n", w);
	r = a - b;
	w = r;
	printf("- %ld\n", w);
	r = a * b;
	w = r;
	printf("* %ld\n", w);
	r = a & b;
	w = r;
	printf("& %ld\n", w);
	r = a | b;
	w = r;
	printf("| %ld\n", w);
	r = a ^ b;
	w = r;
	printf("^ %ld\n", w);
	r = ~a;
	w = r;
	printf("~ %ld\n", w);
	a = 7;
	b = 0;
	r = a + b;
	w = r;
	printf("+ %ld\n", w);
	r = a - b;
	w = r;
	printf("- %ld\n", w);
	r = a * b;
	w = r;
	printf("* %ld\n", w);
	r = a & b;
	w = r;
	printf("& %ld\n", w);
	r = a | b;
	w = r;
	printf("| %ld\n", w);
	r = a ^ b;
	w = r;
	printf("^ %ld\n", w);
	r = ~a;
	w = r;
	printf("~ %ld\n", w);
	a = 7;
	b = 7;
	r = a + b;
	w = r;
	printf("+ %ld\n", w);
	r = a - b;
	w = r;
	printf("- %ld\n", w);
	r = a * b;
	w = r;
	printf("* %ld\n", w);
	r = a & b;
	w = r;
	printf("& %ld\n", w);
	r = a | b;
	w = r;
	printf("| %ld\n", w);
	r = a ^ b;
	w = r;
	printf("^ %ld\n", w);
	r = a / b;
	w = r;
	printf("/ %ld\n", w);
	r = a % b;
	w = r;
	printf("%% %ld\n", w);
	r = ~a;
	w = r;
	printf("~ %ld\n", w);
	a = (-7);
	b = 7;
	r = a + b;
	w = r;
	printf("+ %ld\n", w);
	r = a - b;
	w = r;
	printf("- %ld\n", w);
	r = a * b;
	w = r;
	printf("* %ld\n", w);
	r = a & b;
	w = r;
	printf("& %ld\n", w);
	r = a | b;
	w = r;
	printf("| %ld\n", w);
	r = a ^ b;
	w = r;
	printf("^ %ld\n", w);
	r = a / b;
	w = r;
	printf("/ %ld\n", w);
	r = a % b;
	w = r;
	printf("%% %ld\n", w);
	r = ~a;
	w = r;
	printf("~ %ld\n", w);
	a = (-7);
	b = (-128);
	r = a + b;
	w = r;
	printf("+ %ld\n", w);
	r = a - b;
	w = r;
	printf("- %ld\n", w);
	r = a * b;
	w = r;
	printf("* %ld\n", w);
	r = a & b;
	w = r;
	printf("& %ld\n", w);
	r = a | b;
	w = r;
	printf("| %ld\n", w);
	r = a ^ b;
	w = r;
	printf("^ %ld\n", w);
	r = a / b;
	w = r;
	printf("/ %ld\n", w);
	r = a % b;
	w = r;
	printf("%% %ld\n", w);
	r = ~a;
	w = r;
	printf("~ %ld\n", w);
	a = 100;
	b = (-128);
	r = a + b;
	w = r;
	printf("+ %ld\n", w);
	r = a - b;
	w = r;
	printf("- %ld\n", w);
	r = a * b;
	w = r;
	printf("* %ld\n", w);
	r = a & b;
	w = r;
	printf("& %ld\n", w);
	r = a | b;
	w = r;
	printf("| %ld\n", w);
	r = a ^ b;
	w = r;
	printf("^ %ld\n", w);
	r = a / b;
	w = r;
	printf("/ %ld\n", w);
	r = a % b;
	w = r;
	printf("%% %ld\n", w);
	r = ~a;
	w = r;
	printf("~ %ld\n", w);
	a = 100;
	b = 16387;
	r = a + b;
	w = r;
	printf("+ %ld\n", w);
	r = a - b;
	w = r;
	printf("- %ld\n", w);
	r = a * b;
	w = r;
	printf("* %ld\n", w);
	r = a & b;
	w = r;
	printf("& %ld\n", w);
	r = a | b;
	w = r;
	printf("| %ld\n", w);
	r = a ^ b;
	w = r;
	printf("^ %ld\n", w);
	r = a / b;
	w = r;
	printf("/ %ld\n", w);
	r = a % b;
	w = r;
	printf("%% %ld\n", w);
	r = ~a;
	w = r;
	printf("~ %ld\n", w);
	a = (-128);
	b = 16387;
	r = a + b;
	w = r;
	printf("+ %ld\n", w);
	r = a - b;
	w = r;
	printf("- %ld\n", w);
	r = a * b;
	w = r;
	printf("* %ld\n", w);
	r = a & b;
	w = r;
	printf("& %ld\n", w);
	r = a | b;
	w = r;
	printf("| %ld\n", w);
	r = a ^ b;
	w = r;
	printf("^ %ld\n", w);
	r = a / b;
	w = r;
	printf("/ %ld\n", w);
	r = a % b;
	w = r;
	printf("%% %ld\n", w);
	r = ~a;
	w = r;
	printf("~ %ld\n", w);
	a = (-128);
	b = (-1);
	r = a + b;
	w = r;
	printf("+ %ld\n", w);
	r = a - b;
	w = r;
	printf("- %ld\n", w);
	r = a * b;
	w = r;
	printf("* %ld\n", w);
	r = a & b;
	w = r;
	printf("& %ld\n", w);
	r = a | b;
	w = r;
	printf("| %ld\n", w);
	r = a ^ b;
	w = r;
	printf("^ %ld\n", w);
	r = a / b;
	w = r;
	printf("/ %ld\n", w);
	r = a % b;
	w = r;
	printf("%% %ld\n", w);
	r = ~a;
	w = r;
	printf("~ %ld\n", w);
	a = 32767;
	b = (-1);
	r = a + b;
	w = r;
	printf("+ %ld\n", w);
	r = a - b;
	w = r;
	printf("- %ld\n", w);
	r = a * b;
	w = r;
	printf("* %ld\n", w);
	r = a & b;
	w = r;
	printf("& %ld\n", w);
	r = a | b;
	w = r;
	printf("| %ld\n", w);
	r = a ^ b;
	w = r;
	printf("^ %ld\n", w);
	r = a / b;
	w = r;
	printf("/ %ld\n", w);
	r = a % b;
	w = r;
	printf("%% %ld\n", w);
	r = ~a;
	w = r;
	printf("~ %ld\n", w);
	a = 32767;
	b = 100;
	r = a + b;
	w = r;
	printf("+ %ld\n", w);
	r = a - b;
	w = r;
	printf("- %ld\n", w);
	r = a * b;
	w = r;
	printf("* %ld\n", w);
	r = a & b;
	w = r;
	printf("& %ld\n", w);
	r = a | b;
	w = r;
	printf("| %ld\n", w);
	r = a ^ b;
	w = r;
	printf("^ %ld\n", w);
	r = a / b;
	w = r;
	printf("/ %ld\n", w);
	r = a % b;
	w = r;
	printf("%% %ld\n", w);
	r = ~a;
	w = r;
	printf("~ %ld\n", w);
	a = (-32768);
	b = 100;
	r = a + b;
	w = r;
	printf("+ %ld\n", w);
	r = a - b;
	w = r;
	printf("- %ld\n", w);
	r = a * b;
	w = r;
	printf("* %ld\n", w);
	r = a & b;
	w = r;
	printf("& %ld\n", w);
	r = a | b;
	w = r;
	printf("| %ld\n", w);
	r = a ^ b;
	w = r;
	printf("^ %ld\n", w);
	r = a / b;
	w = r;
	printf("/ %ld\n", w);
	r = a % b;
	w = r;
	printf("%% %ld\n", w);
	r = ~a;
	w = r;
	printf("~ %ld\n", w);
	a = (-32768);
	b = (-32768);
	r = a + b;
	w = r;
	printf("+ %ld\n", w);
	r = a - b;
	w = r;
	printf("- %ld\n", w);
	r = a * b;
	w = r;
	printf("* %ld\n", w);
	r = a & b;
	w = r;
	printf("& %ld\n", w);
	r = a | b;
	w = r;
	printf("| %ld\n", w);
	r = a ^ b;
	w = r;
	printf("^ %ld\n", w);
	r = a / b;
	w = r;
	printf("/ %ld\n", w);
	r = a % b;
	w = r;
	printf("%% %ld\n", w);
	r = ~a;
	w = r;
	printf("~ %ld\n", w);
	a = 16387;
	b = (-32768);
	r = a + b;
	w = r;
	printf("+ %ld\n", w);
	r = a - b;
	w = r;
	printf("- %ld\n", w);
	r = a * b;
	w = r;
	printf("* %ld\n", w);
	r = a & b;
	w = r;
	printf("& %ld\n", w);
	r = a | b;
	w = r;
	printf("| %ld\n", w);
	r = a ^ b;
	w = r;
	printf("^ %ld\n", w);
	r = a / b;
	w = r;
	printf("/ %ld\n", w);
	r = a % b;
	w = r;
	printf("%% %ld\n", w);
	r = ~a;
	w = r;
	printf("~ %ld\n", w);
	a = 16387;
	b = 1;
	r = a + b;
	w = r;
	printf("+ %ld\n", w);
	r = a - b;
	w = r;
	printf("- %ld\n", w);
	r = a * b;
	w = r;
	printf("* %ld\n", w);
	r = a & b;
	w = r;
	printf("& %ld\n", w);
	r = a | b;
	w = r;
	printf("| %ld\n", w);
	r = a ^ b;
	w = r;
	printf("^ %ld\n", w);
	r = a / b;
	w = r;
	printf("/ %ld\n", w);
	r = a % b;
	w = r;
	printf("%% %ld\n", w);
	r = ~a;
	w = r;
	printf("~ %ld\n", w);
	a = 0;
	b = 0;
	r = a >> b;
	w = r;
	printf(">> %ld\n", w);
	r = a << b;
	w = r;
	printf("<< %ld\n", w);
	b = 1;
	r = a >> b;
	w = r;
	printf(">> %ld\n", w);
	r = a << b;
	w = r;
	printf("<< %ld\n", w);
	b = 3;
	r = a >> b;
	w = r;
	printf(">> %ld\n", w);
	r = a << b;
	w = r;
	printf("<< %ld\n", w);
	b = 7;
	r = a >> b;
	w = r;
	printf(">> %ld\n", w);
	r = a << b;
	w = r;
	printf("<< %ld\n", w);
	b = 14;
	r = a >> b;
	w = r;
	printf(">> %ld\n", w);
	r = a << b;
	w = r;
	printf("<< %ld\n", w);
	a = 1;
	b = 0;
	r = a >> b;
	w = r;
	printf(">> %ld\n", w);
	r = a << b;
	w = r;
	printf("<< %ld\n", w);
	b = 1;
	r = a >> b;
	w = r;
	printf(">> %ld\n", w);
	r = a << b;
	w = r;
	printf("<< %ld\n", w);
	b = 3;
	r = a >> b;
	w = r;
	printf(">> %ld\n", w);
	r = a << b;
	w = r;
	printf("<< %ld\n", w);
	b = 7;
	r = a >> b;
	w = r;
	printf(">> %ld\n", w);
	r = a << b;
	w = r;
	printf("<< %ld\n", w);
	b = 14;
	r = a >> b;
	w = r;
	printf(">> %ld\n", w);
	r = a << b;
	w = r;
	printf("<< %ld\n", w);
	a = (-1);
	b = 0;
	r = a >> b;
	w = r;
	printf(">> %ld\n", w);
	r = a << b;
	w = r;
	printf("<< %ld\n", w);
	b = 1;
	r = a >> b;
	w = r;
	printf(">> %ld\n", w);
	r = a << b;
	w = r;
	printf("<< %ld\n", w);
	b = 3;
	r = a >> b;
	w = r;
	printf(">> %ld\n", w);
	r = a << b;
	w = r;
	printf("<< %ld\n", w);
	b = 7;
	r = a >> b;
	w = r;
	printf(">> %ld\n", w);
	r = a << b;
	w = r;
	printf("<< %ld\n", w);
	b = 14;
	r = a >> b;
	w = r;
	printf(">> %ld\n", w);
	r = a << b;
	w = r;
	printf("<< %ld\n", w);
	a = 7;
	b = 0;
	r = a >> b;
	w = r;
	printf(">> %ld\n", w);
	r = a << b;
	w = r;
	printf("<< %ld\n", w);
	b = 1;
	r = a >> b;
	w = r;
	printf(">> %ld\n", w);
	r = a << b;
	w = r;
	printf("<< %ld\n", w);
	b = 3;
	r = a >> b;
	w = r;
	printf(">> %ld\n", w);
	r = a << b;
	w = r;
	printf("<< %ld\n", w);
	b = 7;
	r = a >> b;
	w = r;
	printf(">> %ld\n", w);
	r = a << b;
	w = r;
	printf("<< %ld\n", w);
	b = 14;
	r = a >> b;
	w = r;
	printf(">> %ld\n", w);
	r = a << b;
	w = r;
	printf("<< %ld\n", w);
	a = (-7);
	b = 0;
	r = a >> b;
	w = r;
	printf(">> %ld\n", w);
	r = a << b;
	w = r;
	printf("<< %ld\n", w);
	b = 1;
	r = a >> b;
	w = r;
	printf(">> %ld\n", w);
	r = a << b;
	w = r;
	printf("<< %ld\n", w);
	b = 3;
	r = a >> b;
	w = r;
	printf(">> %ld\n", w);
	r = a << b;
	w = r;
	printf("<< %ld\n", w);
	b = 7;
	r = a >> b;
	w = r;
	printf(">> %ld\n", w);
	r = a << b;
	w = r;
	printf("<< %ld\n", w);
	b = 14;
	r = a >> b;
	w = r;
	printf(">> %ld\n", w);
	r = a << b;
	w = r;
	printf("<< %ld\n", w);
	a = 100;
	b = 0;
	r = a >> b;
	w = r;
	printf(">> %ld\n", w);
	r = a << b;
	w = r;
	printf("<< %ld\n", w);
	b = 1;
	r = a >> b;
	w = r;
	printf(">> %ld\n", w);
	r = a << b;
	w = r;
	printf("<< %ld\n", w);
	b = 3;
	r = a >> b;
	w = r;
	printf(">> %ld\n", w);
	r = a << b;
	w = r;
	printf("<< %ld\n", w);
	b = 7;
	r = a >> b;
	w = r;
	printf(">> %ld\n", w);
	r = a << b;
	w = r;
	printf("<< %ld\n", w);
	b = 14;
	r = a >> b;
	w = r;
	printf(">> %ld\n", w);
	r = a << b;
	w = r;
	printf("<< %ld\n", w);
	a = (-128);
	b = 0;
	r = a >> b;
	w = r;
	printf(">> %ld\n", w);
	r = a << b;
	w = r;
	printf("<< %ld\n", w);
	b = 1;
	r = a >> b;
	w = r;
	printf(">> %ld\n", w);
	r = a << b;
	w = r;
	printf("<< %ld\n", w);
	b = 3;
	r = a >> b;
	w = r;
	printf(">> %ld\n", w);
	r = a << b;
	w = r;
	printf("<< %ld\n", w);
	b = 7;
	r = a >> b;
	w = r;
	printf(">> %ld\n", w);
	r = a << b;
	w = r;
	printf("<< %ld\n", w);
	b = 14;
	r = a >> b;
	w = r;
	printf(">> %ld\n", w);
	r = a << b;
	w = r;
	printf("<< %ld\n", w);
	a = 32767;
	b = 0;
	r = a >> b;
	w = r;
	printf(">> %ld\n", w);
	r = a << b;
	w = r;
	printf("<< %ld\n", w);
	b = 1;
	r = a >> b;
	w = r;
	printf(">> %ld\n", w);
	r = a << b;
	w = r;
	printf("<< %ld\n", w);
	b = 3;
	r = a >> b;
	w = r;
	printf(">> %ld\n", w);
	r = a << b;
	w = r;
	printf("<< %ld\n", w);
	b = 7;
	r = a >> b;
	w = r;
	printf(">> %ld\n", w);
	r = a << b;
	w = r;
	printf("<< %ld\n", w);
	b = 14;
	r = a >> b;
	w = r;
	printf(">> %ld\n", w);
	r = a << b;
	w = r;
	printf("<< %ld\n", w);
	a = (-32768);
	b = 0;
	r = a >> b;
	w = r;
	printf(">> %ld\n", w);
	r = a << b;
	w = r;
	printf("<< %ld\n", w);
	b = 1;
	r = a >> b;
	w = r;
	printf(">> %ld\n", w);
	r = a << b;
	w = r;
	printf("<< %ld\n", w);
	b = 3;
	r = a >> b;
	w = r;
	printf(">> %ld\n", w);
	r = a << b;
	w = r;
	printf("<< %ld\n", w);
	b = 7;
	r = a >> b;
	w = r;
	printf(">> %ld\n", w);
	r = a << b;
	w = r;
	printf("<< %ld\n", w);
	b = 14;
	r = a >> b;
	w = r;
	printf(">> %ld\n", w);
	r = a << b;
	w = r;
	printf("<< %ld\n", w);
	a = 16387;
	b = 0;
	r = a >> b;
	w = r;
	printf(">> %ld\n", w);
	r = a << b;
	w = r;
	printf("<< %ld\n", w);
	b = 1;
	r = a >> b;
	w = r;
	printf(">> %ld\n", w);
	r = a << b;
	w = r;
	printf("<< %ld\n", w);
	b = 3;
	r = a >> b;
	w = r;
	printf(">> %ld\n", w);
	r = a << b;
	w = r;
	printf("<< %ld\n", w);
	b = 7;
	r = a >> b;
	w = r;
	printf(">> %ld\n", w);
	r = a << b;
	w = r;
	printf("<< %ld\n", w);
	b = 14;
	r = a >> b;
	w = r;
	printf(">> %ld\n", w);
	r = a << b;
	w = r;
	printf("<< %ld\n", w);
	a = 0;
	r = a + 1;
	w = r;
	printf("+c %ld\n", w);
	b = 1;
	r = 0 + b;
	w = r;
	printf("c+ %ld\n", w);
	a = 0;
	r = a - 1;
	w = r;
	printf("-c %ld\n", w);
	b = 1;
	r = 0 - b;
	w = r;
	printf("c- %ld\n", w);
	a = 0;
	r = a * 1;
	w = r;
	printf("*c %ld\n", w);
	b = 1;
	r = 0 * b;
	w = r;
	printf("c* %ld\n", w);
	a = 0;
	r = a / 1;
	w = r;
	printf("/c %ld\n", w);
	b = 1;
	r = 0 / b;
	w = r;
	printf("c/ %ld\n", w);
	a = 0;
	r = a % 1;
	w = r;
	printf("%%c %ld\n", w);
	b = 1;
	r = 0 % b;
	w = r;
	printf("c%% %ld\n", w);
	a = 0;
	r = a & 1;
	w = r;
	printf("&c %ld\n", w);
	b = 1;
	r = 0 & b;
	w = r;
	printf("c& %ld\n", w);
	a = 0;
	r = a | 1;
	w = r;
	printf("|c %ld\n", w);
	b = 1;
	r = 0 | b;
	w = r;
	printf("c| %ld\n", w);
	a = 0;
	r = a ^ 1;
	w = r;
	printf("^c %ld\n", w);
	b = 1;
	r = 0 ^ b;
	w = r;
	printf("c^ %ld\n", w);
	a = 1;
	r = a + 32767;
	w = r;
	printf("+c %ld\n", w);
	b = 32767;
	r = 1 + b;
	w = r;
	printf("c+ %ld\n", w);
	a = 1;
	r = a - 32767;
	w = r;
	printf("-c %ld\n", w);
	b = 32767;
	r = 1 - b;
	w = r;
	printf("c- %ld\n", w);
	a = 1;
	r = a * 32767;
	w = r;
	printf("*c %ld\n", w);
	b = 32767;
	r = 1 * b;
	w = r;
	printf("c* %ld\n", w);
	a = 1;
	r = a / 32767;
	w = r;
	printf("/c %ld\n", w);
	b = 32767;
	r = 1 / b;
	w = r;
	printf("c/ %ld\n", w);
	a = 1;
	r = a % 32767;
	w = r;
	printf("%%c %ld\n", w);
	b = 32767;
	r = 1 % b;
	w = r;
	printf("c%% %ld\n", w);
	a = 1;
	r = a & 32767;
	w = r;
	printf("&c %ld\n", w);
	b = 32767;
	r = 1 & b;
	w = r;
	printf("c& %ld\n", w);
	a = 1;
	r = a | 32767;
	w = r;
	printf("|c %ld\n", w);
	b = 32767;
	r = 1 | b;
	w = r;
	printf("c| %ld\n", w);
	a = 1;
	r = a ^ 32767;
	w = r;
	printf("^c %ld\n", w);
	b = 32767;
	r = 1 ^ b;
	w = r;
	printf("c^ %ld\n", w);
	a = 7;
	r = a + 7;
	w = r;
	printf("+c %ld\n", w);
	b = 7;
	r = 7 + b;
	w = r;
	printf("c+ %ld\n", w);
	a = 7;
	r = a - 7;
	w = r;
	printf("-c %ld\n", w);
	b = 7;
	r = 7 - b;
	w = r;
	printf("c- %ld\n", w);
	a = 7;
	r = a * 7;
	w = r;
	printf("*c %ld\n", w);
	b = 7;
	r = 7 * b;
	w = r;
	printf("c* %ld\n", w);
	a = 7;
	r = a / 7;
	w = r;
	printf("/c %ld\n", w);
	b = 7;
	r = 7 / b;
	w = r;
	printf("c/ %ld\n", w);
	a = 7;
	r = a % 7;
	w = r;
	printf("%%c %ld\n", w);
	b = 7;
	r = 7 % b;
	w = r;
	printf("c%% %ld\n", w);
	a = 7;
	r = a & 7;
	w = r;
	printf("&c %ld\n", w);
	b = 7;
	r = 7 & b;
	w = r;
	printf("c& %ld\n", w);
	a = 7;
	r = a | 7;
	w = r;
	printf("|c %ld\n", w);
	b = 7;
	r = 7 | b;
	w = r;
	printf("c| %ld\n", w);
	a = 7;
	r = a ^ 7;
	w = r;
	printf("^c %ld\n", w);
	b = 7;
	r = 7 ^ b;
	w = r;
	printf("c^ %ld\n", w);
	return 0;
}

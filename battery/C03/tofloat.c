int printf(const char *f, ...);
struct m { float f; double d; long double l; };
int main()
{
	float f; double d; long double l;
	struct m o; double a[2];
	double *p = &a[1];
	char v0;
	v0 = 0;
	f = v0; d = v0; l = v0;
	printf("%f %f %Lf\n", f, d, l);
	v0 = 1;
	f = v0; d = v0; l = v0;
	printf("%f %f %Lf\n", f, d, l);
	v0 = -1;
	f = v0; d = v0; l = v0;
	printf("%f %f %Lf\n", f, d, l);
	v0 = 127;
	f = v0; d = v0; l = v0;
	printf("%f %f %Lf\n", f, d, l);
	v0 = -128;
	f = v0; d = v0; l = v0;
	printf("%f %f %Lf\n", f, d, l);
	o.f = v0; o.d = v0; o.l = v0; a[0] = v0; *p = v0;
	printf("%f %f %Lf %f %f\n", o.f, o.d, o.l, a[0], a[1]);
	double i0 = v0;
	printf("%f\n", i0);
	unsigned char v1;
	v1 = 0;
	f = v1; d = v1; l = v1;
	printf("%f %f %Lf\n", f, d, l);
	v1 = 200;
	f = v1; d = v1; l = v1;
	printf("%f %f %Lf\n", f, d, l);
	v1 = 255;
	f = v1; d = v1; l = v1;
	printf("%f %f %Lf\n", f, d, l);
	o.f = v1; o.d = v1; o.l = v1; a[0] = v1; *p = v1;
	printf("%f %f %Lf %f %f\n", o.f, o.d, o.l, a[0], a[1]);
	double i1 = v1;
	printf("%f\n", i1);
	short v2;
	v2 = -32768;
	f = v2; d = v2; l = v2;
	printf("%f %f %Lf\n", f, d, l);
	v2 = 32767;
	f = v2; d = v2; l = v2;
	printf("%f %f %Lf\n", f, d, l);
	v2 = 5;
	f = v2; d = v2; l = v2;
	printf("%f %f %Lf\n", f, d, l);
	o.f = v2; o.d = v2; o.l = v2; a[0] = v2; *p = v2;
	printf("%f %f %Lf %f %f\n", o.f, o.d, o.l, a[0], a[1]);
	double i2 = v2;
	printf("%f\n", i2);
	unsigned short v3;
	v3 = 65535;
	f = v3; d = v3; l = v3;
	printf("%f %f %Lf\n", f, d, l);
	v3 = 7;
	f = v3; d = v3; l = v3;
	printf("%f %f %Lf\n", f, d, l);
	o.f = v3; o.d = v3; o.l = v3; a[0] = v3; *p = v3;
	printf("%f %f %Lf %f %f\n", o.f, o.d, o.l, a[0], a[1]);
	double i3 = v3;
	printf("%f\n", i3);
	int v4;
	v4 = -2147483647;
	f = v4; d = v4; l = v4;
	printf("%f %f %Lf\n", f, d, l);
	v4 = 2147483647;
	f = v4; d = v4; l = v4;
	printf("%f %f %Lf\n", f, d, l);
	v4 = 16777217;
	f = v4; d = v4; l = v4;
	printf("%f %f %Lf\n", f, d, l);
	v4 = -3;
	f = v4; d = v4; l = v4;
	printf("%f %f %Lf\n", f, d, l);
	o.f = v4; o.d = v4; o.l = v4; a[0] = v4; *p = v4;
	printf("%f %f %Lf %f %f\n", o.f, o.d, o.l, a[0], a[1]);
	double i4 = v4;
	printf("%f\n", i4);
	unsigned int v5;
	v5 = 4294967295;
	f = v5; d = v5; l = v5;
	printf("%f %f %Lf\n", f, d, l);
	v5 = 2147483648;
	f = v5; d = v5; l = v5;
	printf("%f %f %Lf\n", f, d, l);
	v5 = 9;
	f = v5; d = v5; l = v5;
	printf("%f %f %Lf\n", f, d, l);
	o.f = v5; o.d = v5; o.l = v5; a[0] = v5; *p = v5;
	printf("%f %f %Lf %f %f\n", o.f, o.d, o.l, a[0], a[1]);
	double i5 = v5;
	printf("%f\n", i5);
	long v6;
	v6 = -9007199254740993;
	f = v6; d = v6; l = v6;
	printf("%f %f %Lf\n", f, d, l);
	v6 = 9223372036854775807;
	f = v6; d = v6; l = v6;
	printf("%f %f %Lf\n", f, d, l);
	v6 = -1;
	f = v6; d = v6; l = v6;
	printf("%f %f %Lf\n", f, d, l);
	v6 = 12;
	f = v6; d = v6; l = v6;
	printf("%f %f %Lf\n", f, d, l);
	o.f = v6; o.d = v6; o.l = v6; a[0] = v6; *p = v6;
	printf("%f %f %Lf %f %f\n", o.f, o.d, o.l, a[0], a[1]);
	double i6 = v6;
	printf("%f\n", i6);
	unsigned long v7;
	v7 = 18446744073709551615;
	f = v7; d = v7; l = v7;
	printf("%f %f %Lf\n", f, d, l);
	v7 = 9223372036854775808;
	f = v7; d = v7; l = v7;
	printf("%f %f %Lf\n", f, d, l);
	v7 = 3;
	f = v7; d = v7; l = v7;
	printf("%f %f %Lf\n", f, d, l);
	o.f = v7; o.d = v7; o.l = v7; a[0] = v7; *p = v7;
	printf("%f %f %Lf %f %f\n", o.f, o.d, o.l, a[0], a[1]);
	double i7 = v7;
	printf("%f\n", i7);
	long long v8;
	v8 = -7;
	f = v8; d = v8; l = v8;
	printf("%f %f %Lf\n", f, d, l);
	v8 = 1152921504606846977;
	f = v8; d = v8; l = v8;
	printf("%f %f %Lf\n", f, d, l);
	o.f = v8; o.d = v8; o.l = v8; a[0] = v8; *p = v8;
	printf("%f %f %Lf %f %f\n", o.f, o.d, o.l, a[0], a[1]);
	double i8 = v8;
	printf("%f\n", i8);
	unsigned long long v9;
	v9 = 18446744073709549568;
	f = v9; d = v9; l = v9;
	printf("%f %f %Lf\n", f, d, l);
	v9 = 1;
	f = v9; d = v9; l = v9;
	printf("%f %f %Lf\n", f, d, l);
	o.f = v9; o.d = v9; o.l = v9; a[0] = v9; *p = v9;
	printf("%f %f %Lf %f %f\n", o.f, o.d, o.l, a[0], a[1]);
	double i9 = v9;
	printf("%f\n", i9);
	return 0;
}

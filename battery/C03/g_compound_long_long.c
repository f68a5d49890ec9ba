int printf(const char *f, ...);
int main()
{
	long long a;
	long w;
	a = 0;
	a += 3;
	w = a;
	printf("+= %ld\n", w);
	a = 0;
	a -= 3;
	w = a;
	printf("-= %ld\n", w);
	a = 0;
	a ^= 3;
	w = a;
	printf("^= %ld\n", w);
	a = 0;
	a <<= 3;
	w = a;
	printf("<<= %ld\n", w);
	a = 0;
	a >>= 3;
	w = a;
	printf(">>= %ld\n", w);
	a = 0;
	a /= 3;
	w = a;
	printf("/= %ld\n", w);
	a = 1;
	a += 3;
	w = a;
	printf("+= %ld\n", w);
	a = 1;
	a -= 3;
	w = a;
	printf("-= %ld\n", w);
	a = 1;
	a ^= 3;
	w = a;
	printf("^= %ld\n", w);
	a = 1;
	a <<= 3;
	w = a;
	printf("<<= %ld\n", w);
	a = 1;
	a >>= 3;
	w = a;
	printf(">>= %ld\n", w);
	a = 1;
	a /= 3;
	w = a;
	printf("/= %ld\n", w);
	a = (-1);
	a += 3;
	w = a;
	printf("+= %ld\n", w);
	a = (-1);
	a -= 3;
	w = a;
	printf("-= %ld\n", w);
	a = (-1);
	a ^= 3;
	w = a;
	printf("^= %ld\n", w);
	a = (-1);
	a <<= 3;
	w = a;
	printf("<<= %ld\n", w);
	a = (-1);
	a >>= 3;
	w = a;
	printf(">>= %ld\n", w);
	a = (-1);
	a /= 3;
	w = a;
	printf("/= %ld\n", w);
	a = 7;
	a += 3;
	w = a;
	printf("+= %ld\n", w);
	a = 7;
	a -= 3;
	w = a;
	printf("-= %ld\n", w);
	a = 7;
	a ^= 3;
	w = a;
	printf("^= %ld\n", w);
	a = 7;
	a <<= 3;
	w = a;
	printf("<<= %ld\n", w);
	a = 7;
	a >>= 3;
	w = a;
	printf(">>= %ld\n", w);
	a = 7;
	a /= 3;
	w = a;
	printf("/= %ld\n", w);
	a = (-7);
	a += 3;
	w = a;
	printf("+= %ld\n", w);
	a = (-7);
	a -= 3;
	w = a;
	printf("-= %ld\n", w);
	a = (-7);
	a ^= 3;
	w = a;
	printf("^= %ld\n", w);
	a = (-7);
	a <<= 3;
	w = a;
	printf("<<= %ld\n", w);
	a = (-7);
	a >>= 3;
	w = a;
	printf(">>= %ld\n", w);
	a = (-7);
	a /= 3;
	w = a;
	printf("/= %ld\n", w);
	a = 100;
	a += 3;
	w = a;
	printf("+= %ld\n", w);
	a = 100;
	a -= 3;
	w = a;
	printf("-= %ld\n", w);
	a = 100;
	a ^= 3;
	w = a;
	printf("^= %ld\n", w);
	a = 100;
	a <<= 3;
	w = a;
	printf("<<= %ld\n", w);
	a = 100;
	a >>= 3;
	w = a;
	printf(">>= %ld\n", w);
	a = 100;
	a /= 3;
	w = a;
	printf("/= %ld\n", w);
	a = (-128);
	a += 3;
	w = a;
	printf("+= %ld\n", w);
	a = (-128);
	a -= 3;
	w = a;
	printf("-= %ld\n", w);
	a = (-128);
	a ^= 3;
	w = a;
	printf("^= %ld\n", w);
	a = (-128);
	a <<= 3;
	w = a;
	printf("<<= %ld\n", w);
	a = (-128);
	a >>= 3;
	w = a;
	printf(">>= %ld\n", w);
	a = (-128);
	a /= 3;
	w = a;
	printf("/= %ld\n", w);
	a = 9223372036854775807;
	a += 3;
	w = a;
	printf("+= %ld\n", w);
	a = 9223372036854775807;
	a -= 3;
	w = a;
	printf("-= %ld\n", w);
	a = 9223372036854775807;
	a ^= 3;
	w = a;
	printf("^= %ld\n", w);
	a = 9223372036854775807;
	a <<= 3;
	w = a;
	printf("<<= %ld\n", w);
	a = 9223372036854775807;
	a >>= 3;
	w = a;
	printf(">>= %ld\n", w);
	a = 9223372036854775807;
	a /= 3;
	w = a;
	printf("/= %ld\n", w);
	a = (-9223372036854775807 - 1);
	a += 3;
	w = a;
	printf("+= %ld\n", w);
	a = (-9223372036854775807 - 1);
	a -= 3;
	w = a;
	printf("-= %ld\n", w);
	a = (-9223372036854775807 - 1);
	a ^= 3;
	w = a;
	printf("^= %ld\n", w);
	a = (-9223372036854775807 - 1);
	a <<= 3;
	w = a;
	printf("<<= %ld\n", w);
	a = (-9223372036854775807 - 1);
	a >>= 3;
	w = a;
	printf(">>= %ld\n", w);
	a = (-9223372036854775807 - 1);
	a /= 3;
	w = a;
	printf("/= %ld\n", w);
	a = 4611686018427387907;
	a += 3;
	w = a;
	printf("+= %ld\n", w);
	a = 4611686018427387907;
	a -= 3;
	w = a;
	printf("-= %ld\n", w);
	a = 4611686018427387907;
	a ^= 3;
	w = a;
	printf("^= %ld\n", w);
	a = 4611686018427387907;
	a <<= 3;
	w = a;
	printf("<<= %ld\n", w);
	a = 4611686018427387907;
	a >>= 3;
	w = a;
	printf(">>= %ld\n", w);
	a = 4611686018427387907;
	a /= 3;
	w = a;
	printf("/= %ld\n", w);
	return 0;
}

int printf(const char *f, ...);
int main()
{
	unsigned long long a;
	long w;
	a = 0;
	a += 3;
	w = a;
	printf("+= %ld\n", w);
	a = 0;
	a -= 3;
	w = a;
	printf("-= %ld\n", w);
	a = 0;
	a ^= 3;
	w = a;
	printf("^= %ld\n", w);
	a = 0;
	a <<= 3;
	w = a;
	printf("<<= %ld\n", w);
	a = 0;
	a >>= 3;
	w = a;
	printf(">>= %ld\n", w);
	a = 0;
	a /= 3;
	w = a;
	printf("/= %ld\n", w);
	a = 1;
	a += 3;
	w = a;
	printf("+= %ld\n", w);
	a = 1;
	a -= 3;
	w = a;
	printf("-= %ld\n", w);
	a = 1;
	a ^= 3;
	w = a;
	printf("^= %ld\n", w);
	a = 1;
	a <<= 3;
	w = a;
	printf("<<= %ld\n", w);
	a = 1;
	a >>= 3;
	w = a;
	printf(">>= %ld\n", w);
	a = 1;
	a /= 3;
	w = a;
	printf("/= %ld\n", w);
	a = 2;
	a += 3;
	w = a;
	printf("+= %ld\n", w);
	a = 2;
	a -= 3;
	w = a;
	printf("-= %ld\n", w);
	a = 2;
	a ^= 3;
	w = a;
	printf("^= %ld\n", w);
	a = 2;
	a <<= 3;
	w = a;
	printf("<<= %ld\n", w);
	a = 2;
	a >>= 3;
	w = a;
	printf(">>= %ld\n", w);
	a = 2;
	a /= 3;
	w = a;
	printf("/= %ld\n", w);
	a = 7;
	a += 3;
	w = a;
	printf("+= %ld\n", w);
	a = 7;
	a -= 3;
	w = a;
	printf("-= %ld\n", w);
	a = 7;
	a ^= 3;
	w = a;
	printf("^= %ld\n", w);
	a = 7;
	a <<= 3;
	w = a;
	printf("<<= %ld\n", w);
	a = 7;
	a >>= 3;
	w = a;
	printf(">>= %ld\n", w);
	a = 7;
	a /= 3;
	w = a;
	printf("/= %ld\n", w);
	a = 13;
	a += 3;
	w = a;
	printf("+= %ld\n", w);
	a = 13;
	a -= 3;
	w = a;
	printf("-= %ld\n", w);
	a = 13;
	a ^= 3;
	w = a;
	printf("^= %ld\n", w);
	a = 13;
	a <<= 3;
	w = a;
	printf("<<= %ld\n", w);
	a = 13;
	a >>= 3;
	w = a;
	printf(">>= %ld\n", w);
	a = 13;
	a /= 3;
	w = a;
	printf("/= %ld\n", w);
	a = 100;
	a += 3;
	w = a;
	printf("+= %ld\n", w);
	a = 100;
	a -= 3;
	w = a;
	printf("-= %ld\n", w);
	a = 100;
	a ^= 3;
	w = a;
	printf("^= %ld\n", w);
	a = 100;
	a <<= 3;
	w = a;
	printf("<<= %ld\n", w);
	a = 100;
	a >>= 3;
	w = a;
	printf(">>= %ld\n", w);
	a = 100;
	a /= 3;
	w = a;
	printf("/= %ld\n", w);
	a = 9223372036854775807;
	a += 3;
	w = a;
	printf("+= %ld\n", w);
	a = 9223372036854775807;
	a -= 3;
	w = a;
	printf("-= %ld\n", w);
	a = 9223372036854775807;
	a ^= 3;
	w = a;
	printf("^= %ld\n", w);
	a = 9223372036854775807;
	a <<= 3;
	w = a;
	printf("<<= %ld\n", w);
	a = 9223372036854775807;
	a >>= 3;
	w = a;
	printf(">>= %ld\n", w);
	a = 9223372036854775807;
	a /= 3;
	w = a;
	printf("/= %ld\n", w);
	a = (-9223372036854775808);
	a += 3;
	w = a;
	printf("+= %ld\n", w);
	a = (-9223372036854775808);
	a -= 3;
	w = a;
	printf("-= %ld\n", w);
	a = (-9223372036854775808);
	a ^= 3;
	w = a;
	printf("^= %ld\n", w);
	a = (-9223372036854775808);
	a <<= 3;
	w = a;
	printf("<<= %ld\n", w);
	a = (-9223372036854775808);
	a >>= 3;
	w = a;
	printf(">>= %ld\n", w);
	a = (-9223372036854775808);
	a /= 3;
	w = a;
	printf("/= %ld\n", w);
	a = (-1);
	a += 3;
	w = a;
	printf("+= %ld\n", w);
	a = (-1);
	a -= 3;
	w = a;
	printf("-= %ld\n", w);
	a = (-1);
	a ^= 3;
	w = a;
	printf("^= %ld\n", w);
	a = (-1);
	a <<= 3;
	w = a;
	printf("<<= %ld\n", w);
	a = (-1);
	a >>= 3;
	w = a;
	printf(">>= %ld\n", w);
	a = (-1);
	a /= 3;
	w = a;
	printf("/= %ld\n", w);
	a = (-7);
	a += 3;
	w = a;
	printf("+= %ld\n", w);
	a = (-7);
	a -= 3;
	w = a;
	printf("-= %ld\n", w);
	a = (-7);
	a ^= 3;
	w = a;
	printf("^= %ld\n", w);
	a = (-7);
	a <<= 3;
	w = a;
	printf("<<= %ld\n", w);
	a = (-7);
	a >>= 3;
	w = a;
	printf(">>= %ld\n", w);
	a = (-7);
	a /= 3;
	w = a;
	printf("/= %ld\n", w);
	return 0;
}

int printf(const char *f, ...);
int main()
{
	char a;
	long w;
	a = 0;
	a += 3;
	w = a;
	printf("+= %ld\n", w);
	a = 0;
	a -= 3;
	w = a;
	printf("-= %ld\n", w);
	a = 0;
	a ^= 3;
	w = a;
	printf("^= %ld\n", w);
	a = 0;
	a <<= 3;
	w = a;
	printf("<<= %ld\n", w);
	a = 0;
	a >>= 3;
	w = a;
	printf(">>= %ld\n", w);
	a = 0;
	a /= 3;
	w = a;
	printf("/= %ld\n", w);
	a = 1;
	a += 3;
	w = a;
	printf("+= %ld\n", w);
	a = 1;
	a -= 3;
	w = a;
	printf("-= %ld\n", w);
	a = 1;
	a ^= 3;
	w = a;
	printf("^= %ld\n", w);
	a = 1;
	a <<= 3;
	w = a;
	printf("<<= %ld\n", w);
	a = 1;
	a >>= 3;
	w = a;
	printf(">>= %ld\n", w);
	a = 1;
	a /= 3;
	w = a;
	printf("/= %ld\n", w);
	a = (-1);
	a += 3;
	w = a;
	printf("+= %ld\n", w);
	a = (-1);
	a -= 3;
	w = a;
	printf("-= %ld\n", w);
	a = (-1);
	a ^= 3;
	w = a;
	printf("^= %ld\n", w);
	a = (-1);
	a <<= 3;
	w = a;
	printf("<<= %ld\n", w);
	a = (-1);
	a >>= 3;
	w = a;
	printf(">>= %ld\n", w);
	a = (-1);
	a /= 3;
	w = a;
	printf("/= %ld\n", w);
	a = 7;
	a += 3;
	w = a;
	printf("+= %ld\n", w);
	a = 7;
	a -= 3;
	w = a;
	printf("-= %ld\n", w);
	a = 7;
	a ^= 3;
	w = a;
	printf("^= %ld\n", w);
	a = 7;
	a <<= 3;
	w = a;
	printf("<<= %ld\n", w);
	a = 7;
	a >>= 3;
	w = a;
	printf(">>= %ld\n", w);
	a = 7;
	a /= 3;
	w = a;
	printf("/= %ld\n", w);
	a = (-7);
	a += 3;
	w = a;
	printf("+= %ld\n", w);
	a = (-7);
	a -= 3;
	w = a;
	printf("-= %ld\n", w);
	a = (-7);
	a ^= 3;
	w = a;
	printf("^= %ld\n", w);
	a = (-7);
	a <<= 3;
	w = a;
	printf("<<= %ld\n", w);
	a = (-7);
	a >>= 3;
	w = a;
	printf(">>= %ld\n", w);
	a = (-7);
	a /= 3;
	w = a;
	printf("/= %ld\n", w);
	a = 100;
	a += 3;
	w = a;
	printf("+= %ld\n", w);
	a = 100;
	a -= 3;
	w = a;
	printf("-= %ld\n", w);
	a = 100;
	a ^= 3;
	w = a;
	printf("^= %ld\n", w);
	a = 100;
	a <<= 3;
	w = a;
	printf("<<= %ld\n", w);
	a = 100;
	a >>= 3;
	w = a;
	printf(">>= %ld\n", w);
	a = 100;
	a /= 3;
	w = a;
	printf("/= %ld\n", w);
	a = (-128);
	a += 3;
	w = a;
	printf("+= %ld\n", w);
	a = (-128);
	a -= 3;
	w = a;
	printf("-= %ld\n", w);
	a = (-128);
	a ^= 3;
	w = a;
	printf("^= %ld\n", w);
	a = (-128);
	a <<= 3;
	w = a;
	printf("<<= %ld\n", w);
	a = (-128);
	a >>= 3;
	w = a;
	printf(">>= %ld\n", w);
	a = (-128);
	a /= 3;
	w = a;
	printf("/= %ld\n", w);
	a = 127;
	a += 3;
	w = a;
	printf("+= %ld\n", w);
	a = 127;
	a -= 3;
	w = a;
	printf("-= %ld\n", w);
	a = 127;
	a ^= 3;
	w = a;
	printf("^= %ld\n", w);
	a = 127;
	a <<= 3;
	w = a;
	printf("<<= %ld\n", w);
	a = 127;
	a >>= 3;
	w = a;
	printf(">>= %ld\n", w);
	a = 127;
	a /= 3;
	w = a;
	printf("/= %ld\n", w);
	a = (-128);
	a += 3;
	w = a;
	printf("+= %ld\n", w);
	a = (-128);
	a -= 3;
	w = a;
	printf("-= %ld\n", w);
	a = (-128);
	a ^= 3;
	w = a;
	printf("^= %ld\n", w);
	a = (-128);
	a <<= 3;
	w = a;
	printf("<<= %ld\n", w);
	a = (-128);
	a >>= 3;
	w = a;
	printf(">>= %ld\n", w);
	a = (-128);
	a /= 3;
	w = a;
	printf("/= %ld\n", w);
	a = 67;
	a += 3;
	w = a;
	printf("+= %ld\n", w);
	a = 67;
	a -= 3;
	w = a;
	printf("-= %ld\n", w);
	a = 67;
	a ^= 3;
	w = a;
	printf("^= %ld\n", w);
	a = 67;
	a <<= 3;
	w = a;
	printf("<<= %ld\n", w);
	a = 67;
	a >>= 3;
	w = a;
	printf(">>= %ld\n", w);
	a = 67;
	a /= 3;
	w = a;
	printf("/= %ld\n", w);
	return 0;
}

int printf(const char *f, ...);
int main()
{
	unsigned char a;
	long w;
	a = 0;
	a += 3;
	w = a;
	printf("+= %ld\n", w);
	a = 0;
	a -= 3;
	w = a;
	printf("-= %ld\n", w);
	a = 0;
	a ^= 3;
	w = a;
	printf("^= %ld\n", w);
	a = 0;
	a <<= 3;
	w = a;
	printf("<<= %ld\n", w);
	a = 0;
	a >>= 3;
	w = a;
	printf(">>= %ld\n", w);
	a = 0;
	a /= 3;
	w = a;
	printf("/= %ld\n", w);
	a = 1;
	a += 3;
	w = a;
	printf("+= %ld\n", w);
	a = 1;
	a -= 3;
	w = a;
	printf("-= %ld\n", w);
	a = 1;
	a ^= 3;
	w = a;
	printf("^= %ld\n", w);
	a = 1;
	a <<= 3;
	w = a;
	printf("<<= %ld\n", w);
	a = 1;
	a >>= 3;
	w = a;
	printf(">>= %ld\n", w);
	a = 1;
	a /= 3;
	w = a;
	printf("/= %ld\n", w);
	a = 2;
	a += 3;
	w = a;
	printf("+= %ld\n", w);
	a = 2;
	a -= 3;
	w = a;
	printf("-= %ld\n", w);
	a = 2;
	a ^= 3;
	w = a;
	printf("^= %ld\n", w);
	a = 2;
	a <<= 3;
	w = a;
	printf("<<= %ld\n", w);
	a = 2;
	a >>= 3;
	w = a;
	printf(">>= %ld\n", w);
	a = 2;
	a /= 3;
	w = a;
	printf("/= %ld\n", w);
	a = 7;
	a += 3;
	w = a;
	printf("+= %ld\n", w);
	a = 7;
	a -= 3;
	w = a;
	printf("-= %ld\n", w);
	a = 7;
	a ^= 3;
	w = a;
	printf("^= %ld\n", w);
	a = 7;
	a <<= 3;
	w = a;
	printf("<<= %ld\n", w);
	a = 7;
	a >>= 3;
	w = a;
	printf(">>= %ld\n", w);
	a = 7;
	a /= 3;
	w = a;
	printf("/= %ld\n", w);
	a = 13;
	a += 3;
	w = a;
	printf("+= %ld\n", w);
	a = 13;
	a -= 3;
	w = a;
	printf("-= %ld\n", w);
	a = 13;
	a ^= 3;
	w = a;
	printf("^= %ld\n", w);
	a = 13;
	a <<= 3;
	w = a;
	printf("<<= %ld\n", w);
	a = 13;
	a >>= 3;
	w = a;
	printf(">>= %ld\n", w);
	a = 13;
	a /= 3;
	w = a;
	printf("/= %ld\n", w);
	a = 100;
	a += 3;
	w = a;
	printf("+= %ld\n", w);
	a = 100;
	a -= 3;
	w = a;
	printf("-= %ld\n", w);
	a = 100;
	a ^= 3;
	w = a;
	printf("^= %ld\n", w);
	a = 100;
	a <<= 3;
	w = a;
	printf("<<= %ld\n", w);
	a = 100;
	a >>= 3;
	w = a;
	printf(">>= %ld\n", w);
	a = 100;
	a /= 3;
	w = a;
	printf("/= %ld\n", w);
	a = 127;
	a += 3;
	w = a;
	printf("+= %ld\n", w);
	a = 127;
	a -= 3;
	w = a;
	printf("-= %ld\n", w);
	a = 127;
	a ^= 3;
	w = a;
	printf("^= %ld\n", w);
	a = 127;
	a <<= 3;
	w = a;
	printf("<<= %ld\n", w);
	a = 127;
	a >>= 3;
	w = a;
	printf(">>= %ld\n", w);
	a = 127;
	a /= 3;
	w = a;
	printf("/= %ld\n", w);
	a = 128;
	a += 3;
	w = a;
	printf("+= %ld\n", w);
	a = 128;
	a -= 3;
	w = a;
	printf("-= %ld\n", w);
	a = 128;
	a ^= 3;
	w = a;
	printf("^= %ld\n", w);
	a = 128;
	a <<= 3;
	w = a;
	printf("<<= %ld\n", w);
	a = 128;
	a >>= 3;
	w = a;
	printf(">>= %ld\n", w);
	a = 128;
	a /= 3;
	w = a;
	printf("/= %ld\n", w);
	a = 255;
	a += 3;
	w = a;
	printf("+= %ld\n", w);
	a = 255;
	a -= 3;
	w = a;
	printf("-= %ld\n", w);
	a = 255;
	a ^= 3;
	w = a;
	printf("^= %ld\n", w);
	a = 255;
	a <<= 3;
	w = a;
	printf("<<= %ld\n", w);
	a = 255;
	a >>= 3;
	w = a;
	printf(">>= %ld\n", w);
	a = 255;
	a /= 3;
	w = a;
	printf("/= %ld\n", w);
	a = 249;
	a += 3;
	w = a;
	printf("+= %ld\n", w);
	a = 249;
	a -= 3;
	w = a;
	printf("-= %ld\n", w);
	a = 249;
	a ^= 3;
	w = a;
	printf("^= %ld\n", w);
	a = 249;
	a <<= 3;
	w = a;
	printf("<<= %ld\n", w);
	a = 249;
	a >>= 3;
	w = a;
	printf(">>= %ld\n", w);
	a = 249;
	a /= 3;
	w = a;
	printf("/= %ld\n", w);
	return 0;
}

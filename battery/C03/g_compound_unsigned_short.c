int printf(const char *f, ...);
int main()
{
	unsigned short a;
	long w;
	a = 0;
	a += 3;
	w = a;
	printf("+= %ld\n", w);
	a = 0;
	a -= 3;
	w = a;
	printf("-= %ld\n", w);
	a = 0;
	a ^= 3;
	w = a;
	printf("^= %ld\n", w);
	a = 0;
	a <<= 3;
	w = a;
	printf("<<= %ld\n", w);
	a = 0;
	a >>= 3;
	w = a;
	printf(">>= %ld\n", w);
	a = 0;
	a /= 3;
	w = a;
	printf("/= %ld\n", w);
	a = 1;
	a += 3;
	w = a;
	printf("+= %ld\n", w);
	a = 1;
	a -= 3;
	w = a;
	printf("-= %ld\n", w);
	a = 1;
	a ^= 3;
	w = a;
	printf("^= %ld\n", w);
	a = 1;
	a <<= 3;
	w = a;
	printf("<<= %ld\n", w);
	a = 1;
	a >>= 3;
	w = a;
	printf(">>= %ld\n", w);
	a = 1;
	a /= 3;
	w = a;
	printf("/= %ld\n", w);
	a = 2;
	a += 3;
	w = a;
	printf("+= %ld\n", w);
	a = 2;
	a -= 3;
	w = a;
	printf("-= %ld\n", w);
	a = 2;
	a ^= 3;
	w = a;
	printf("^= %ld\n", w);
	a = 2;
	a <<= 3;
	w = a;
	printf("<<= %ld\n", w);
	a = 2;
	a >>= 3;
	w = a;
	printf(">>= %ld\n", w);
	a = 2;
	a /= 3;
	w = a;
	printf("/= %ld\n", w);
	a = 7;
	a += 3;
	w = a;
	printf("+= %ld\n", w);
	a = 7;
	a -= 3;
	w = a;
	printf("-= %ld\n", w);
	a = 7;
	a ^= 3;
	w = a;
	printf("^= %ld\n", w);
	a = 7;
	a <<= 3;
	w = a;
	printf("<<= %ld\n", w);
	a = 7;
	a >>= 3;
	w = a;
	printf(">>= %ld\n", w);
	a = 7;
	a /= 3;
	w = a;
	printf("/= %ld\n", w);
	a = 13;
	a += 3;
	w = a;
	printf("+= %ld\n", w);
	a = 13;
	a -= 3;
	w = a;
	printf("-= %ld\n", w);
	a = 13;
	a ^= 3;
	w = a;
	printf("^= %ld\n", w);
	a = 13;
	a <<= 3;
	w = a;
	printf("<<= %ld\n", w);
	a = 13;
	a >>= 3;
	w = a;
	printf(">>= %ld\n", w);
	a = 13;
	a /= 3;
	w = a;
	printf("/= %ld\n", w);
	a = 100;
	a += 3;
	w = a;
	printf("+= %ld\n", w);
	a = 100;
	a -= 3;
	w = a;
	printf("-= %ld\n", w);
	a = 100;
	a ^= 3;
	w = a;
	printf("^= %ld\n", w);
	a = 100;
	a <<= 3;
	w = a;
	printf("<<= %ld\n", w);
	a = 100;
	a >>= 3;
	w = a;
	printf(">>= %ld\n", w);
	a = 100;
	a /= 3;
	w = a;
	printf("/= %ld\n", w);
	a = 32767;
	a += 3;
	w = a;
	printf("+= %ld\n", w);
	a = 32767;
	a -= 3;
	w = a;
	printf("-= %ld\n", w);
	a = 32767;
	a ^= 3;
	w = a;
	printf("^= %ld\n", w);
	a = 32767;
	a <<= 3;
	w = a;
	printf("<<= %ld\n", w);
	a = 32767;
	a >>= 3;
	w = a;
	printf(">>= %ld\n", w);
	a = 32767;
	a /= 3;
	w = a;
	printf("/= %ld\n", w);
	a = 32768;
	a += 3;
	w = a;
	printf("+= %ld\n", w);
	a = 32768;
	a -= 3;
	w = a;
	printf("-= %ld\n", w);
	a = 32768;
	a ^= 3;
	w = a;
	printf("^= %ld\n", w);
	a = 32768;
	a <<= 3;
	w = a;
	printf("<<= %ld\n", w);
	a = 32768;
	a >>= 3;
	w = a;
	printf(">>= %ld\n", w);
	a = 32768;
	a /= 3;
	w = a;
	printf("/= %ld\n", w);
	a = 65535;
	a += 3;
	w = a;
	printf("+= %ld\n", w);
	a = 65535;
	a -= 3;
	w = a;
	printf("-= %ld\n", w);
	a = 65535;
	a ^= 3;
	w = a;
	printf("^= %ld\n", w);
	a = 65535;
	a <<= 3;
	w = a;
	printf("<<= %ld\n", w);
	a = 65535;
	a >>= 3;
	w = a;
	printf(">>= %ld\n", w);
	a = 65535;
	a /= 3;
	w = a;
	printf("/= %ld\n", w);
	a = 65529;
	a += 3;
	w = a;
	printf("+= %ld\n", w);
	a = 65529;
	a -= 3;
	w = a;
	printf("-= %ld\n", w);
	a = 65529;
	a ^= 3;
	w = a;
	printf("^= %ld\n", w);
	a = 65529;
	a <<= 3;
	w = a;
	printf("<<= %ld\n", w);
	a = 65529;
	a >>= 3;
	w = a;
	printf(">>= %ld\n", w);
	a = 65529;
	a /= 3;
	w = a;
	printf("/= %ld\n", w);
	return 0;
}

// every kind of expression is executed many times by the same text
int printf(const char *f, ...);
int g = 7;
int twice(int a) { return a + a; }
int main() {
    int i, x, *p, arr[4];
    unsigned char c;
    long acc = 0;
    for (i = 0; i < 6; i++) {
        x = 5;
        x++;
        ++x;
        x--;
        arr[i % 4] = x + i;
        p = arr + (i % 4);
        *p = *p * 2;
        c = (unsigned char)(250 + i);
        acc = acc + (i > 2 ? 10 : 20) + (x & 3) + (x | 8) + (x ^ 5) + (x << 2) + (x >> 1) + ~x + !x;
        acc += *p;
        acc -= twice(i) / 2;
        g = (g * 3, g + 1);
        printf("%d %d %d %ld %d %d\n", i, x, c, acc, g, (int)sizeof(arr));
        if (i == 4 && x == 6 || i == 9) printf("four\n");
    }
    while (i > 0) { int k = 3; k = k + i; i--; if (k == 5) break; printf("k%d ", k); }
    printf("%d\n", i);
    return 0;
}

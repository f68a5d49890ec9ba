// every assignment operator builds its own operator
int printf(const char *f, ...);

int add(int a, int b) { a += b; return a; }
int sub(int a, int b) { a -= b; return a; }
int xor(int a, int b) { a ^= b; return a; }
int div(int a, int b) { a /= b; return a; }
int shl(int a, int b) { a <<= b; return a; }
int shr(int a, int b) { a >>= b; return a; }

int main()
{
    int a, b;

    for (a = 5; a < 40; a = a + 11)
        for (b = 1; b < 8; b = b + 3) {
            printf("%d %d: %d %d %d %d %d %d\n", a, b, add(a, b), sub(a, b), xor(a, b), div(a, b), shl(a, b), shr(a, b));
            printf("%d %d: %d %d %d %d %d %d %d\n", a, b, a | b, a & b, a ^ b, a % b, a * b, a << b, a >> b);
            printf("%d %d: %d %d %d %d %d %d %d %d\n", a, b, a < b, a > b, a <= b, a >= b, a == b, a != b, a && b, a || b);
        }

    return 0;
}

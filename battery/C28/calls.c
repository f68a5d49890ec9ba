// calls with all kinds of arguments, again and again, recursive ones among them
int printf(const char *f, ...);
int strcmp(const char *a, const char *b);
unsigned long strlen(const char *s);
int ack(int m, int n) { if (m == 0) return n + 1; if (n == 0) return ack(m - 1, 1); return ack(m - 1, ack(m, n - 1)); }
void swap(int *a, int *b) { int t = *a; *a = *b; *b = t; }
char next(char c) { return c + 1; }
int main() {
    int i, x = 1, y = 2, (*op)(int, int);
    op = &ack;
    for (i = 0; i < 4; i++) {
        swap(&x, &y);
        printf("%d %d %d %c %lu %d %s %f\n", x, y, op(2, i), next('a' + i), strlen("four"), strcmp("a", "a"), i % 2 ? "odd" : "even", 1.5);
    }
    return ack(1, 3);
}

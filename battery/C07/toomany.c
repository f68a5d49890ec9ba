// status: any failure
// filter: ^[0-9-]
int printf(const char *f, ...);
int f(int a, int b) { return a; }
int main() { int k; k = f(1, 2, 3); printf("%d\n", k); return 0; }

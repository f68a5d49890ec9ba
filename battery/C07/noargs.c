// status: any failure
// filter: ^[0-9-]
int printf(const char *f, ...);
int f(int a) { return 3; }
int main() { int k; k = f(); printf("%d\n", k); return 0; }

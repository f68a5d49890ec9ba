// status: any failure
// filter: ^[0-9-]
int printf(const char *f, ...);
int f(int a) { { int inner; inner = a; while (1) { int more; more = inner; return more; } } }
int main() { int k; k = f(3); printf("%d\n", k); return inner; }

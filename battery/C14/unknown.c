// status: any failure
// filter: ^[0-9]
int printf(const char *f, ...);
int no_such_function_anywhere(int x);
int main() { int k; printf("%d\n", 1); k = no_such_function_anywhere(3); printf("%d\n", 2); return 0; }

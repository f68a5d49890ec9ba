// status: any failure
// filter: ^[0-9-]
int g(int b) { return a + b; }
int f(int a) { return g(a); }
int main() { return f(3); }

// status: any failure
// filter: ^[0-9-]
int f(int a) { return a + local; }
int main() { int local; local = 4; return f(3); }

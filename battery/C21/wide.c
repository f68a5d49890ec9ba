int f(int x) { return x; }
int main() { return f(300); }

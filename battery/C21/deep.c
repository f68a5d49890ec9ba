int f(int n) { if (n) { for (;;) { while (1) { return f(n - 1) + 1; } } } return 3; }
int main() { { { { return f(40); } } } }

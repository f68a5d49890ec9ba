int main() { int *p; p = 0; if (p) return 1; return (p == 0) + 30; }

int main() { int a; a = 5; return a - 5; }

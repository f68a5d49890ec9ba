int main(void) { int a; a = 3; while (1) { if (a) { return -a; } a++; } }

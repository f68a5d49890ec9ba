// status: any failure
int main() { int a; a = ; return 0; }

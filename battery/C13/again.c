// status: any failure
#include <stdio.h>
enum { A, B };
enum { C, B };
int main() { printf("%d\n", B); return 0; }

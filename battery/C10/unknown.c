// status: any failure
#include <stdio.h>
struct s { int a; };
int main() { struct s v; v.a = 1; printf("%d\n", v.a); printf("%d\n", v.b); return 0; }

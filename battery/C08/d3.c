// status: any failure
#include <stdio.h>
struct s { int a; };
struct s { int a; int b; };
int main() { struct s x; printf("%d\n", (int)sizeof(x)); return 0; }

// status: any failure
#include <stdio.h>
int main() { { struct in { int a; } v; v.a = 3; printf("%d\n", v.a); } struct in w; printf("%d\n", (int)sizeof(w)); return 0; }

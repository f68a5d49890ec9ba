// status: any failure
#include <stdio.h>
union s { int a; struct { int b; } in; };
int main() { int b; union s v; union s *p; p = &v; v.in.b = 1; printf("%d\n", p->in.b); p->b = 3; printf("%d\n", v.a); return 0; }

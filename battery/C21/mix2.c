// status: any failure
#include <stdio.h>
int main() { puts("main"); return 0; }
int i;
puts("top");
int f() { return 0; }

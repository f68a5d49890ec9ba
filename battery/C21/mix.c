// status: any failure
#include <stdio.h>
int i;
i = 4;
puts("top");
int main() { puts("main"); return 0; }

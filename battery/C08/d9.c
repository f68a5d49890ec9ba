// status: any failure
#include <stdio.h>
int main() { { enum { EA = 3 }; printf("%d\n", EA); } printf("%d\n", EA); return 0; }

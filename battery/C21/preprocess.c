// status: any failure
#include <stdio.h>
#ifndef NOT_DEFINED
#error not defined
#endif
int main() { puts("x"); return 0; }

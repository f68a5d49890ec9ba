// status: any failure
#include <stdio.h>
int main() { int k; printf("before\n"); int k; printf("after\n"); return 0; }

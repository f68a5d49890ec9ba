// args: a b c
#include <stdio.h>
int main(int n) { printf("%d\n", n); return n; }

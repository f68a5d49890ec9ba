// args: a b c
#include <stdio.h>
int main() { printf("none\n"); return 1; }

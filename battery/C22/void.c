// args: a b c
#include <stdio.h>
int main(void) { printf("%d %s\n", argc, argv[3]); return argc; }

#include <stdio.h>
int g;
int main() { g = 7; printf("%d\n", g); }

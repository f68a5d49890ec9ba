#include <stdio.h>
#include <string.h>
int main(int c, char **v) { printf("%d %d\n", c, strcmp(v[0] + strlen(v[0]) - 8, "/alone.c")); return c; }

#include <stdio.h>
void main() { puts("x"); return; }

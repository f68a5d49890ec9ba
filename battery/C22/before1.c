// stderr: also
// args: x y
#include <stdio.h>
int main(int argc);
int main(int argc) { printf("%d\n", argc); return 0; }

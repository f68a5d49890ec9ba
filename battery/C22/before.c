// args: x y
#include <stdio.h>
int main(int argc, char **argv);
int f(int k) { return k * 2; }
int main(int argc, char **argv)
{
    printf("%d %s %s\n", f(argc), argv[1], argv[2]);
    return 0;
}

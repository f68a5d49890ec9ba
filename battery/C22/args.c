// args: one "two three" -v -s "" --x=5 "*"
#include <stdio.h>
#include <string.h>
int main(int argc, char *argv[])
{
    int i;

    printf("%d\n", argc);
    printf("%d\n", strcmp(argv[0] + strlen(argv[0]) - 7, "/args.c"));
    for (i = 1; i < argc; i++)
        printf("%d [%s] %d\n", i, argv[i], strlen(argv[i]));
    return argc;
}

// args: a bc def
#include <stdio.h>
#include <string.h>
int i;
printf("%d %d\n", argc, strlen(argv[2]));
for (i = 1; i < argc; i++) {
    printf("%s\n", argv[i]);
    argv[i] = "x";
}
puts(argv[3]);
argc = argc + 1;
return argc;

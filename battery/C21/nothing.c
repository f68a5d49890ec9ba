#include <stdio.h>
int i;
for (i = 0; i < 3; i++) printf("%d\n", i);
i;

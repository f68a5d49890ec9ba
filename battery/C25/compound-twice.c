// the left operand of a compound assignment is evaluated once
#include <stdio.h>

int main()
{
    int a[3], i = 0;

    a[0] = a[1] = a[2] = 5;
    a[i++] += 10;
    printf("%d %d %d %d\n", a[0], a[1], a[2], i);

    return 0;
}

#include <stdio.h>
int i;
int f(int n) { for (i = 0; i < n; i++) { if (i == 3) return 5; } return 6; }
puts("begin");
for (i = 0; i < 10; i++) {
    while (1) {
        if (f(10) == 5) {
            return f(2) + 40;
        }
    }
    puts("not here");
}
puts("nor here");
return 1;

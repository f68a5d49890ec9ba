// flags: -I one -I two -I three
#include <h.h>
#include <other.h>
int main() {
    int d;
    d = sum(2, 3);
    if (which == 1) { if (other == 4) { if (d == 5) { return 11; } } }
    return 1;
}

// flags: -Ithree -Itwo -Ione
#include <h.h>
int main() { return which * 10 + diff(5, 3); }

// flags: -I "with space" -I two
#include <h.h>
int main() { return which; }

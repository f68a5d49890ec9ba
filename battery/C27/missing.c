// flags: -I three
// status: any failure
#include <h.h>
int main() { return 0; }

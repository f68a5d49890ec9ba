// status: any failure
#include "there-is-no-such-file.h"
int main() { return 0; }

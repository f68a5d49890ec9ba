// mode: repl
// flags: -I "with space" -I one -I three
#include <h.h>
which;
#include <other.h>
which + other;
which = 20;
#include <h.h>
which + other;

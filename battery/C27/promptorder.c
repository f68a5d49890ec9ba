// mode: repl
// flags: -I two -I one
#include <h.h>
which;
diff(7, 2);

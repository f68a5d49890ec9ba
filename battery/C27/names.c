// mode: repl
// flags: -I types
#include <t.h>
celsius t = 4;
t;
#include <u.h>
celsius u = 5;
kelvin v = 6;
t + u + v;

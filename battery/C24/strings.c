// mode: repl
// hide: (?m)0x[0-9a-f]+|^BIC> //.*$
char *empty = "";
empty;
char *full = "abc";
full;
full + 1;
full + 3;
char **pc = &full;
pc;
*pc;
struct s { char *name; struct s *next; char tag; unsigned char *bytes; } one;
one.name = "one";
one.next = &one;
one.tag = 65;
one;
one.name = full;
one.name;
one.next->name;
struct n { struct s inner; struct { struct { int depth; char *deep; } third; } second; unsigned int last; } nested;
nested.inner.name = "in";
nested.second.third.depth = 3;
nested.second.third.deep = "down";
nested.last = 3000000000;
nested;
nested.second;
nested.second.third.deep;
signed char *sc = 0;
sc;
?full
?empty
?nested
?one
int f(char *s);
?f
int *ip = (int *)full;
ip;

// mode: repl
// filter: ^(?!BIC>|.*0x).+$
struct in { int a; char b; };
struct out { int x; struct in y; union { int q; char r; } z; short s; unsigned long u; double d; };
struct out o;
o.x = 1;
o.y.a = 2;
o.y.b = -3;
o.z.q = 321;
o.s = 70000;
o.u = -1;
o.d = 2.5;
o;
o.y;
o.z;
struct in *sp = &o.y;
*sp;
sp->b;
union v { int i; char c; } v;
v.i = 65601;
v;
typedef struct { int a; } anonymous;
anonymous n;
n.a = 4;
n;
enum e { A, B = 7 };
enum e en = B;
en;
B;

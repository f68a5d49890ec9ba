// mode: repl
// filter: ^-?[0-9]+$
typedef int number;
number a = 7;
typedef number *np;
np p = &a;
*p;
typedef struct { number x; char c; } s;
s v;
v.x = 5;
v.x * a;
typedef s sp[2];
sp w;
w[1].x = 3;
w[1].x * *p;
sizeof(s);
(char)321;
typedef char small;
(small)321;

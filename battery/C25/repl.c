// mode: repl
// filter: ^-?[0-9]+$
int a = 7;
int b = 3;
int v[3];
int *p = &a;
a - b * 2 - 1;
a / b * b + a % b;
a = b = 5;
a -= b -= 1;
a << 1 + 1;
a ? b ? 1 : 2 : 3;
!a == 0;
v[1] = 4;
*p + v[1];
a++ - --b;
b;
sizeof(int) - 1;

// mode: repl
// filter: ^(?!BIC>|.*0x).+$
char c = 65;
c;
signed char sc = -3;
sc;
unsigned char uc = 200;
uc;
short s = -5;
s;
unsigned short us = 65535;
us;
int i = -7;
i;
unsigned int ui = 4294967295;
ui;
long l = -9223372036854775808;
l;
unsigned long ul = 18446744073709551615;
ul;
long long ll = -5;
ll;
unsigned long long ull = 18446744073709551615;
ull;
float f = 1.5;
f;
double d = 0.1;
d;
long double ld;
ld = 2.5;
ld;
char *nul = 0;
nul;
void *vp = 0;
1.5;
"text";
'a';
i == -7;
c + 1;
(char)300;
-1.5;
i++;
i;
++us;
--us;
sizeof(ld);
c = 200;
uc = 300;
s = 40000;
ui = -1;
ul = -1;
char *empty = "";
empty;
char *full = "abc";
full;
char **pc = &full;
unsigned char *up = &uc;
ui = 3000000000;
ui;
us = 65535;
us;
ul = 9223372036854775808;
ul;

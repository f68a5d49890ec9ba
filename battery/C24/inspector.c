// mode: repl
// filter: ^(?!BIC>|.*0x).+$
char c = 1;
unsigned char uc = 2;
short s = -3;
unsigned short us = 4;
int i = -5;
unsigned ui = 6;
long l = -7;
unsigned long ul = 8;
long long ll = -9;
unsigned long long ull = 10;
float f = 1.5;
double d = -2.5;
long double ld;
ld = 3.5;
int a[3];
int *p = 0;
char **cpp = 0;
typedef struct { int a; } anonymous;
anonymous n;
anonymous *np = 0;
struct tagged { int a; } *tp = 0;
int (*fp)(int) = 0;
void *vp = 0;
static int st = 11;
int printf(const char *f, ...);
?c
?uc
?s
?us
?i
?ui
?l
?ul
?ll
?ull
?f
?d
?ld
?p
?cpp
?n
?np
?tp
?fp
?vp
?st
?printf
?nothing
?a
i;
?i

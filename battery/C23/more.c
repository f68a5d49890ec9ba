// mode: repl
// filter: ^(?!.*0x).+$
int foo = 1;
int foobar = 2;
int foobarbaz = 3;
foobarb	;
foobar	;
foob		arb	;
fo		foo;
struct w { int m01; int m02; int m03; int m04; int m05; int m06; int m07; int m08; int m09; int m10; int m11; int m12; int m13; int m14; int m15; int m16; int m17; int m18; int m19; int m20; int m21; int m22; int m23; int m24; int m25; int m26; int m27; int m28; int m29; int m30; int m31; int m32; int m33; int longer_member_name_than_the_others; } w;
w.m		17	 = 5;
w.m17;
w.m3		3 = 6;
w.lo	 = 7;
struct w *pw = &w;
(*pw).lo	;
(&w)->lo	;
pw->m3		3;
pw->lo	 + w.lo	;
pw->x	foo;
.fo	foo;
-fo	foo;
!foobarb	foo;
-	foo;
.	foo;
union u { int number; float real; struct { int deep; } in; } u;
u.num	 = 3;
u.in.de	;
u.re	 = 1.5;
u.r	;
int *an_integer = &foo;
an_integer->f	foo;
struct w array[3];
array[1].lo	 = 4;
array[1].lo	;
array[2].lo	;

// mode: repl
// filter: ^(?!.*0x).+$
int zoo_apple = 1;
int zoo_banana = 2;
int zoo_cherry = 3;
int zebra = 4;
struct s { int member_a; int member_b; int other; } zob;
zob.member_a = 7;
zoo_		b	;
zob.mem		ber_b	= 8;
zob.member_b;
zob.o	 = 9;
zob.other;
z		eb	;
zob.x	zoo_apple;
zoo_d	zebra;
*.	zebra;
zob.		zebra;

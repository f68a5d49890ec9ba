// mode: repl
// filter: ^(?!BIC>|.*0x).+$
int a = 1;
a + 1;
a = 5; a = 6;
a;

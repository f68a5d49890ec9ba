// mode: repl
// filter: ^(?!BIC>|.*0x).+$
// env: HOME=home
increment(2);
counter;
shared;
byte b = 300;
b;
GREEN;
shared.b += 10;
shared;
struct pair mine;
mine.a = increment(counter);
mine.a;

// mode: repl
// flags: -I inc
// filter: ^(?!.*0x).+$
#include <shelf.h>
shelf_w		 = 12;
shelf_width;
shelf_h		 = shelf_w		 + 3;
shelf_height;
shelf_first.br		 = 5;
shelf_first.brackets;
lab		(-4);
int shelf_z = 9;
shelf_z;
shelf_		zap

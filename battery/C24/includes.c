// mode: repl
// flags: -I inc
// filter: ^(?!BIC>|.*0x).+$
#include <box.h>
?box_side
?box_area
?labs
box_side = 6;
?box_side
box_area(7);
#include <lid.h>
?lid_side
lid_area(2);
?box_cover
box_side;
?nothing

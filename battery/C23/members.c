// mode: repl
// filter: ^(?!.*0x).+$
struct s { int alpha; int beta; char *gamma; };
struct t { struct s inner; struct s *outer; int alone; };
struct s object;
object.alpha = 10;
object.beta = 20;
struct s *pointer = &object;
struct t whole;
whole.inner.beta = 33;
whole.outer = &object;
whole.alone = 44;
int foobar = 5;
int fizzle = 6;
foob	;
object.al	;
object.b	;
pointer->be	;
whole.inner.be	;
whole.outer->al	;
whole.alo	;
fizz	 + foob	;
int counter = 0;
fooba	;
counter;
object.al	= 11;
object.alpha;
pointer->be	= 12;
object.be	;
foobar;

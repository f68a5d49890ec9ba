// mode: repl
// filter: ^(?!BIC>|.*0x).+$
int puts(const char *s);
unsigned long strlen(const char *s);
double fabs(double x);
int f(int a, char *b) { return a; }
struct pt { int x; int y; } p;
struct pt *pp;
union u { int i; char c[6]; } un;
enum col { RED, GREEN } en;
int arr[7];
char *names[3];
typedef struct pt pt_t;
pt_t q;
?puts
?strlen
?f
?p
?pp
?un
?en
?arr
?names
?q
?nosuch
?GREEN
en = GREEN;
?en
p.x = 4;
p.y = -5;
?p

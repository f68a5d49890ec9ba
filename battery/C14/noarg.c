#include <stdio.h>
#include <stdlib.h>
int getpid(void);
int getppid();
char *getenv(const char *n);
void srand(unsigned int s);
int rand(void);
void f(void) { srand(5); }
int main() { int a; int b; a = getpid(); b = getpid(); printf("%d %d\n", a > 1, a == b); a = getppid() == a; printf("%d\n", a);
 f(); a = rand(); f(); b = rand(); printf("%d\n", a == b); printf("%d\n", getenv("NO_SUCH_VARIABLE") == 0); puts("end"); return 0; }

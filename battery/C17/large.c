int printf(const char *f, ...);
#define A t = t + 1;
#define B A A A A A A A A A A
#define C B B B B B B B B B B
#define D C C C C C C C C C C
int t;
int small(void) { int i, s; s = 0; for (i = 0; i < 2500; i++) { int q = i; s += q; } return s; }
int one(void) { t = 0; D D D D return t; }
int two(void) { t = 0; D D D D D D D D D return t; }
int main(void)
{
    printf("%d\n", small());
    printf("%d %d\n", one(), two());
    printf("%d\n", small());
    printf("%d %d\n", one(), two());
    return 0;
}

// declarations of all kinds are executed again by every call
int printf(const char *f, ...);
typedef int number;
typedef number *numberp;
int f(int n) {
    struct point { int x; int y; char name[6]; } a, *q;
    union both { int i; char c[4]; } u;
    enum colour { RED = 3, GREEN, BLUE = 9 };
    typedef struct point location;
    location here;
    number v = n + 1;
    numberp w = &v;
    int arr[5], *ptr, (*fp)(int);
    const char *s = "text";
    a.x = n;
    a.y = GREEN;
    q = &a;
    q->name[0] = 'A' + n;
    q->name[1] = 0;
    u.i = 65 + n;
    here.x = BLUE;
    arr[n] = n * 2;
    ptr = &arr[n];
    v++;
    fp = &f;
    printf("%d %d %s %d %d %d %d %d %s %d\n", a.x, a.y, q->name, u.c[0], here.x, *w, *ptr, (int)sizeof(location), s, (int)sizeof(union both));
    if (n > 0) return fp(n - 1) + 1;
    return 0;
}
int main() {
    int i;
    for (i = 0; i < 3; i++) printf("-> %d\n", f(i + 1));
    return f(4);
}

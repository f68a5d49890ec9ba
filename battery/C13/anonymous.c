int printf(const char *f, ...);
enum { A, B, C };
enum { D, E = 7, F };
enum tag { G, H };
enum { I, J };
typedef enum { K, L, M } kinds;
enum { N };
int inner(void)
{
    enum { P, Q };
    enum { R = -2, S, T };
    enum { U };
    return P * 1000 + Q * 100 + S * 10 + U;
}
int main(void)
{
    kinds k = M;
    printf("%d %d %d\n", A, B, C);
    printf("%d %d %d\n", D, E, F);
    printf("%d %d %d %d\n", G, H, I, J);
    printf("%d %d %d %d\n", K, L, k, N);
    printf("%d\n", inner());
    printf("%d\n", inner());
    for (int i = 0; i < 2; i++) {
        enum { X, Y };
        printf("%d %d\n", X, Y);
    }
    return 0;
}

// enumerators around zero, at the ends of int, from other enumerators and in inner scopes
int printf(const char *format, ...);

enum a { A = -3, B, C, D, E };
enum b { F = -1, G, H };
enum c { I = 2147483646, J };
enum d { K = -2147483647 - 1, L, M };
enum e { N, O = N + 7, P, Q = P * 2, R = O - P, S, T = 'x', U, V = 1 << 4, W = ~V, X = (V > 3) && (U != T), Y };
enum { Z = 0, ZA = 0, ZB, ZC = 0, ZD };

int f(int n)
{
    enum { A = 10, B };

    if (n) {
        enum { B = 20, C };
        return A + B + C;
    }
    return A + B + C;
}

int main()
{
    enum a x = C;
    enum e y;

    y = Q;
    printf("%d %d %d %d %d\n", A, B, C, D, E);
    printf("%d %d %d\n", F, G, H);
    printf("%d %d\n", I, J);
    printf("%d %d %d\n", K, L, M);
    printf("%d %d %d %d %d %d %d %d %d %d %d %d\n", N, O, P, Q, R, S, T, U, V, W, X, Y);
    printf("%d %d %d %d %d\n", Z, ZA, ZB, ZC, ZD);
    printf("%d %d\n", f(0), f(1));
    printf("%d %d %d\n", x, y, (int)sizeof(x));
    return 0;
}

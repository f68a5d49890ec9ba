#include <stdio.h>

struct s { int x; };

int f(int n)
{
    return n & 7;
}

int main()
{
    int a = 3, b = 5, c = 12, d = 100, e = 6;
    int t[2];
    struct s o;
    struct s *p = &o;

    t[0] = 4;
    t[1] = 9;
    o.x = 21;

    printf("%d %d\n", 0, a + 0 < (7 != b <= -d) != -b);
    printf("%d %d\n", 1, c > f(d - 6 > c ? b == a : e < b) + 8 & e || e + p->x);
    printf("%d %d\n", 2, !e >> c != 7 || e && b << a);
    printf("%d %d\n", 3, t[b & 1] * a);
    printf("%d %d\n", 4, e || c == ~c);
    printf("%d %d\n", 5, 0 < 0x43 / 3 > a);
    printf("%d %d\n", 6, (6 == 0) && c % -c * ~c << a != -e);
    printf("%d %d\n", 7, *&b == a >> p->x >> f(0 < -b >> !c) | t[b & 1] != (1 << 4));
    printf("%d %d\n", 8, c ^ (7 != d ? !b && 6 : 9 * ~c));
    printf("%d %d\n", 9, *&c - a ? p->x - 0x97 : b & t[e % 2]);
    printf("%d %d\n", 10, *&e != 1 >> a ^ d);
    printf("%d %d\n", 11, a < 1 * c);
    printf("%d %d\n", 12, !a && (0xfd && 9) >> f(e << 0) & d > 8 <= t[1]);
    printf("%d %d\n", 13, f(5 == p->x) != 7 * *&b % e);
    printf("%d %d\n", 14, 6 < a == ~a | b);
    printf("%d %d\n", 15, (b > f(7 / 1) | 0) <= e & c % e | b != a);
    printf("%d %d\n", 16, c + 8);
    printf("%d %d\n", 17, 2 == t[e % 2]);
    printf("%d %d\n", 18, 0 <= e);
    printf("%d %d\n", 19, 7 < 4);
    printf("%d %d\n", 20, 8 <= 4 << 3);
    printf("%d %d\n", 21, d && -d & 0 > d | 0xd1);
    printf("%d %d\n", 22, f(e % b <= a) * 0 << (c >> c | 8) <= 2 ^ 8);
    printf("%d %d\n", 23, e << e && e & e < b);
    printf("%d %d\n", 24, 2 <= f((b || a >> a) >= !a - b) >= t[e % 2] && e << d <= b);
    printf("%d %d\n", 25, 6 <= e / -a ? 6 ^ *&b : !a + p->x);
    printf("%d %d\n", 26, 4 * t[0] - 2 ? a >> 4 : t[e % 2] < c);
    printf("%d %d\n", 27, a << 8 == ~e > 8 > -c * (f(-a == c ? b < p->x : 4 * c) < b));
    printf("%d %d\n", 28, 1 & c == (d ^ d) / a - 0x89);
    printf("%d %d\n", 29, 1 > 6 == -d == 0);
    printf("%d %d\n", 30, -b + t[b & 1] != (e ^ d % (6 || a)) + 5);
    printf("%d %d\n", 31, ~d / b + ~c % d | ~d);
    printf("%d %d\n", 32, 0x7d >= *&d * b);
    printf("%d %d\n", 33, d < a ? (5 / 1) | t[0] : 1 < e);
    printf("%d %d\n", 34, e / 3 << e ^ !e && -a);
    printf("%d %d\n", 35, c != a);
    printf("%d %d\n", 36, 6 % e - 2);
    printf("%d %d\n", 37, 4 >= d & 2 <= c);
    printf("%d %d\n", 38, 0xfe && 1 % ~b ? 9 << b : 4 > 0xd3);
    printf("%d %d\n", 39, 1 | (8 + a | !e ? 1 ^ a : d || !a) && 5);
    printf("%d %d\n", 40, f(2 < 8 >= 6) ^ e / d);
    printf("%d %d\n", 41, 8 >= 5 * 8 != 9 ? 2 * !b : t[b & 1] || !b);
    printf("%d %d\n", 42, t[1] == 9 || t[1] & (-a > ~c - c) && 9 == a);
    printf("%d %d\n", 43, 7 / -d >> t[1] < c);
    printf("%d %d\n", 44, d || 0xba >> a >= !b + a);
    printf("%d %d\n", 45, *&d ^ !e / -d < 3 != (d << e) << 8);
    printf("%d %d\n", 46, e == 8 * 0x1f);
    printf("%d %d\n", 47, a - !a + ~d | b != e);
    printf("%d %d\n", 48, *&e < t[e % 2] | e);
    printf("%d %d\n", 49, 1 && ~c | d + c);
    printf("%d %d\n", 50, 9 != p->x % b ? !a + b : e != d);
    printf("%d %d\n", 51, d << 5 >= c >> e);
    printf("%d %d\n", 52, 0x42 - 0x29 % -a > b == b < 9);
    printf("%d %d\n", 53, b < 3 | e == c > 2 << 0);
    printf("%d %d\n", 54, 5 / 6 <= e);
    printf("%d %d\n", 55, 3 || 1 && *&a);
    printf("%d %d\n", 56, c - e < e ^ f(f(f(e % 4 * ~d) / 1) || c * 8) == -b);
    printf("%d %d\n", 57, e / p->x > (~a & d));
    printf("%d %d\n", 58, b > c & d - b);
    printf("%d %d\n", 59, c % t[0] + *&b != 8 > f(9 | 0x5d) && ~b);
    printf("%d %d\n", 60, d << 0);
    printf("%d %d\n", 61, 6 && 3 == (8 <= c == 0x66) | a <= e <= 5);
    printf("%d %d\n", 62, d / 0x3);
    printf("%d %d\n", 63, d && 0);
    printf("%d %d\n", 64, a ^ ~b + !e);
    printf("%d %d\n", 65, d == -b > -e & d < c);
    printf("%d %d\n", 66, -c >= c > p->x == f(8 > a >= e) | 0xe ? 2 ^ -b : a * c);
    printf("%d %d\n", 67, a >> e != p->x << p->x & *&a && e);
    printf("%d %d\n", 68, 0x38 << t[0] && !a);
    printf("%d %d\n", 69, c - b << a * !c);
    printf("%d %d\n", 70, p->x | c);
    printf("%d %d\n", 71, *&d > *&c);
    printf("%d %d\n", 72, p->x * 7 / 1 << a);
    printf("%d %d\n", 73, c || ~c / c >> t[b & 1] && a & -b ? c % e : f(f(d << d * b) + a) * 3);
    printf("%d %d\n", 74, 0x5c << f(c >= 9 ? 6 <= b : e == 6) <= 2);
    printf("%d %d\n", 75, b % t[b & 1] / 8 << e);
    printf("%d %d\n", 76, a != b);
    printf("%d %d\n", 77, 9 <= c << a);
    printf("%d %d\n", 78, e <= a < 6);
    printf("%d %d\n", 79, e >= c % b <= a > c);
    printf("%d %d\n", 80, *&a >= c < 0x2d / d / 5);
    printf("%d %d\n", 81, 5 && 0x53 >= t[1] << e & e - (e >> p->x ^ ~d));
    printf("%d %d\n", 82, 0xb4 % 0x3a & 0 * 2);
    printf("%d %d\n", 83, c < 3);
    printf("%d %d\n", 84, f(0 == 0xd1 / ~a) == 4 % 6 > (!a & d) <= e + p->x);
    printf("%d %d\n", 85, c && d % 9 - t[1] / a);
    printf("%d %d\n", 86, a * (e % 6) != !e < 7 / 5 ? p->x >> 1 : b * 9);
    printf("%d %d\n", 87, a + 7 & ((4 <= 2) > *&d & b) / c != !a == *&a);
    printf("%d %d\n", 88, f(a | d) == 1 / 9 <= 5);
    printf("%d %d\n", 89, a / e ^ e % e || *&c % t[0]);
    printf("%d %d\n", 90, 1 >= 9 > (d > e) ? 6 | 0x54 : e | -e);
    printf("%d %d\n", 91, f(1 % d + 8) & a > a <= 5 - t[b & 1]);
    printf("%d %d\n", 92, b << (t[0] < !b - a) ^ 4);
    printf("%d %d\n", 93, a * d);
    printf("%d %d\n", 94, b > b ^ 4 | ~c - d ? 4 / p->x : b + 8);
    printf("%d %d\n", 95, 8 & b);
    printf("%d %d\n", 96, 4 < c != e);
    printf("%d %d\n", 97, d < 8 + t[1] & d >= p->x * e);
    printf("%d %d\n", 98, a >> c == 3);
    printf("%d %d\n", 99, p->x * d ^ t[0]);
    printf("%d %d\n", 100, (!e / *&b * 7) > 7 | ~d & 1);
    printf("%d %d\n", 101, ~a > *&a);
    printf("%d %d\n", 102, b || p->x - 9 && c <= 6 ? c + e : a << d);
    printf("%d %d\n", 103, f((t[e % 2] < c + t[e % 2]) << 8 == d) || *&d != e != 8);
    printf("%d %d\n", 104, d || c < *&c ? c > f(2 - d ? ((1 >= !c) >> t[1]) > 0 : b % e) : c >= -e);
    printf("%d %d\n", 105, 0xeb >= -a * d < 4 != d <= 5);
    printf("%d %d\n", 106, 6 ^ 0);
    printf("%d %d\n", 107, 8 < 0xe <= -d < p->x);
    printf("%d %d\n", 108, f(5 < c) > e >= 9 | d != *&b && e);
    printf("%d %d\n", 109, ~d / 4 % p->x + 1 > a);
    printf("%d %d\n", 110, e != 3 >= c);
    printf("%d %d\n", 111, a ^ b & c | *&e % 8 | d);
    printf("%d %d\n", 112, t[1] >> t[b & 1] || 2 ? 9 != b : b * c);
    printf("%d %d\n", 113, 0x1c < d);
    printf("%d %d\n", 114, 6 | 6 & p->x ^ e - 0xc6 != d);
    printf("%d %d\n", 115, e >= a > !d);
    printf("%d %d\n", 116, 0 ^ e ^ e && e);
    printf("%d %d\n", 117, 4 ^ p->x % p->x);
    printf("%d %d\n", 118, p->x < 5 - d);
    printf("%d %d\n", 119, ~b || d);

    return 0;
}

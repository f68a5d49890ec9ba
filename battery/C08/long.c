// names that are alike: long ones, beginnings of each other, and only different in case
int printf(const char *format, ...);

int a_name_that_is_longer_than_most_others_are = 1;
int a_name_that_is_longer_than_most_others_aren = 2;
int a_name_that_is_longer_than_most_others_ar = 3;
int a = 4;
int aa = 5;
int A = 6;
int _a = 7;
int a_ = 8;
int a1 = 9;
int a0123456789012345678901234567890123456789012345678901234567890123456789_1 = 10;
int a0123456789012345678901234567890123456789012345678901234567890123456789_2 = 11;

struct long_tag_of_a_structure_that_is_1 { char c[1]; };
struct long_tag_of_a_structure_that_is_2 { char c[2]; };
union long_tag_of_a_structure_that_is_3 { char c[3]; };
union u { char c[4]; };
struct v { char c[5]; };

int f()
{
    int a_name_that_is_longer_than_most_names_are = 20;
    int aaa = 21;
    union u { char c[6]; };
    struct m { char the_first_member_with_a_long_name; char the_first_member_with_a_long_name_too; } m;
    union u x;
    struct v y;

    m.the_first_member_with_a_long_name = 1;
    m.the_first_member_with_a_long_name_too = 2;
    printf("%d %d\n", m.the_first_member_with_a_long_name, m.the_first_member_with_a_long_name_too);
    printf("%d %d %d %d\n", a_name_that_is_longer_than_most_others_are, a_name_that_is_longer_than_most_names_are, a, aa);
    printf("%d %d %d\n", aaa, (int)sizeof(x), (int)sizeof(y));
    return a_name_that_is_longer_than_most_others_are;
}

int main()
{
    struct long_tag_of_a_structure_that_is_1 s1;
    struct long_tag_of_a_structure_that_is_2 s2;
    union long_tag_of_a_structure_that_is_3 s3;
    union u s4;
    struct v s5;

    f();
    printf("%d %d %d\n", a_name_that_is_longer_than_most_others_are, a_name_that_is_longer_than_most_others_aren, a_name_that_is_longer_than_most_others_ar);
    printf("%d %d %d %d %d %d\n", a, aa, A, _a, a_, a1);
    printf("%d %d\n", a0123456789012345678901234567890123456789012345678901234567890123456789_1, a0123456789012345678901234567890123456789012345678901234567890123456789_2);
    printf("%d %d %d %d %d\n", (int)sizeof(s1), (int)sizeof(s2), (int)sizeof(s3), (int)sizeof(s4), (int)sizeof(s5));
    return 0;
}

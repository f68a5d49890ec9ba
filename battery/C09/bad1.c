// not a type: short long x
// status: any failure
int printf(const char *format, ...);
struct s { int i; };
enum e { A };
typedef int number;

int main()
{
    short long x;

    printf("declared\n");
    return 0;
}

// not a type: struct s int x
// status: any failure
int printf(const char *format, ...);
struct s { int i; };
enum e { A };
typedef int number;

int main()
{
    struct s int x;

    printf("declared\n");
    return 0;
}

// not a type: long char x
// status: any failure
int printf(const char *format, ...);
struct s { int i; };
enum e { A };
typedef int number;

int main()
{
    long char x;

    printf("declared\n");
    return 0;
}

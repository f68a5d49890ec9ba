// not a type: char char x
// status: any failure
int printf(const char *format, ...);
struct s { int i; };
enum e { A };
typedef int number;

int main()
{
    char char x;

    printf("declared\n");
    return 0;
}

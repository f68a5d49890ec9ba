// not a type: int number x
// status: any failure
int printf(const char *format, ...);
struct s { int i; };
enum e { A };
typedef int number;

int main()
{
    int number x;

    printf("declared\n");
    return 0;
}

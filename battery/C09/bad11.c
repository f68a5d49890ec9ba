// not a type: double double x
// status: any failure
int printf(const char *format, ...);
struct s { int i; };
enum e { A };
typedef int number;

int main()
{
    double double x;

    printf("declared\n");
    return 0;
}

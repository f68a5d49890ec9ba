// not a type: signed unsigned x
// status: any failure
int printf(const char *format, ...);
struct s { int i; };
enum e { A };
typedef int number;

int main()
{
    signed unsigned x;

    printf("declared\n");
    return 0;
}

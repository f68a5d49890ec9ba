// not a type: unsigned enum e x
// status: any failure
int printf(const char *format, ...);
struct s { int i; };
enum e { A };
typedef int number;

int main()
{
    unsigned enum e x;

    printf("declared\n");
    return 0;
}

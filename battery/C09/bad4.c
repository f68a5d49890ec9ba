// not a type: long long long x
// status: any failure
int printf(const char *format, ...);
struct s { int i; };
enum e { A };
typedef int number;

int main()
{
    long long long x;

    printf("declared\n");
    return 0;
}

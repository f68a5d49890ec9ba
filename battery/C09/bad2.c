// not a type: unsigned float x
// status: any failure
int printf(const char *format, ...);
struct s { int i; };
enum e { A };
typedef int number;

int main()
{
    unsigned float x;

    printf("declared\n");
    return 0;
}

// not a type: void int x
// status: any failure
int printf(const char *format, ...);
struct s { int i; };
enum e { A };
typedef int number;

int main()
{
    void int x;

    printf("declared\n");
    return 0;
}

// sizes of declared type names
int printf(const char *f, ...);
typedef int arr[5];
struct s { char c; long l; };
int main() { int n = 3; printf("%d %d %d\n", (int)sizeof(struct s[3]), (int)sizeof(int (*)[4]), (int)sizeof(char **[2]));
 printf("%d %d\n", (int)sizeof(arr *), (int)sizeof(arr)); return 0; }

// type names in casts and sizeof
int printf(const char *format, ...);

long big = -987654321987654321;

int main()
{
    printf("char: %d %ld\n", (int)sizeof(char), (long)(char)big);
    printf("signed char: %d %ld\n", (int)sizeof(signed char), (long)(signed char)big);
    printf("unsigned char: %d %ld\n", (int)sizeof(unsigned char), (long)(unsigned char)big);
    printf("short: %d %ld\n", (int)sizeof(short), (long)(short)big);
    printf("signed short: %d %ld\n", (int)sizeof(signed short), (long)(signed short)big);
    printf("short int: %d %ld\n", (int)sizeof(short int), (long)(short int)big);
    printf("signed short int: %d %ld\n", (int)sizeof(signed short int), (long)(short signed int)big);
    printf("unsigned short: %d %ld\n", (int)sizeof(unsigned short), (long)(unsigned short)big);
    printf("unsigned short int: %d %ld\n", (int)sizeof(unsigned short int), (long)(short unsigned int)big);
    printf("int: %d %ld\n", (int)sizeof(int), (long)(int)big);
    printf("signed: %d %ld\n", (int)sizeof(signed), (long)(signed)big);
    printf("signed int: %d %ld\n", (int)sizeof(signed int), (long)(signed int)big);
    printf("unsigned: %d %ld\n", (int)sizeof(unsigned), (long)(unsigned)big);
    printf("unsigned int: %d %ld\n", (int)sizeof(unsigned int), (long)(unsigned int)big);
    printf("long: %d %ld\n", (int)sizeof(long), (long)(long)big);
    printf("signed long: %d %ld\n", (int)sizeof(signed long), (long)(signed long)big);
    printf("long int: %d %ld\n", (int)sizeof(long int), (long)(long int)big);
    printf("signed long int: %d %ld\n", (int)sizeof(signed long int), (long)(long signed int)big);
    printf("unsigned long: %d %ld\n", (int)sizeof(unsigned long), (long)(unsigned long)big);
    printf("unsigned long int: %d %ld\n", (int)sizeof(unsigned long int), (long)(long unsigned int)big);
    printf("long long: %d %ld\n", (int)sizeof(long long), (long)(long long)big);
    printf("signed long long: %d %ld\n", (int)sizeof(signed long long), (long)(long signed long)big);
    printf("long long int: %d %ld\n", (int)sizeof(long long int), (long)(long int long)big);
    printf("signed long long int: %d %ld\n", (int)sizeof(signed long long int), (long)(long long signed int)big);
    printf("unsigned long long: %d %ld\n", (int)sizeof(unsigned long long), (long)(long unsigned long)big);
    printf("unsigned long long int: %d %ld\n", (int)sizeof(unsigned long long int), (long)(long long unsigned int)big);
    printf("%d\n", (int)sizeof(float));
    printf("%d\n", (int)sizeof(double));
    printf("%d\n", (int)sizeof(long double));
    printf("%d\n", (int)sizeof(double long));
    printf("%d\n", (int)sizeof(void *));
    printf("%d\n", (int)sizeof(char **));
    printf("%d\n", (int)sizeof(int[7]));
    printf("%d\n", (int)sizeof(char *[5]));
    printf("%d\n", (int)sizeof(long (*)[3]));
    printf("%d\n", (int)sizeof(int (*)(int, char)));
    return 0;
}

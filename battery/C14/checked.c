extern int printf(const char *f, ...);
extern char *strcpy(char *d, const char *s);
extern char *strcat(char *d, const char *s);
int main(void)
{
    char b[40];
    char *s = "xyz";
    for (int i = 0; i < 3; i++) {
        char *r = __builtin___strcpy_chk(b, "ab", 40);
        printf("%s %d\n", b, r == b);
        r = __builtin___strcat_chk(b, s + i, sizeof(b));
        printf("%s %d\n", b, r == b);
        __builtin___strcat_chk(__builtin___strcpy_chk(b + 20, s, 20), "!", 20);
        printf("%s %s\n", b, b + 20);
    }
    return 0;
}

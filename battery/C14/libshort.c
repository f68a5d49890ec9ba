// flags: -l crypt -l m
int printf(const char *f, ...);
int bz(void);
char *crypt(const char *k, const char *s);
int main() { printf("%s\n", crypt("key", "ab")); return 0; }

int printf(const char *f, ...);
unsigned long strlen(const char *s);
int len(char *s) { int n; n = 0; while (*s++) n++; return n; }
int count(char *s, char c) { int n; n = 0; for (; *s; s++) if (*s == c) n++; return n; }
void copy(char *d, char *s) { while (*s) { *d = *s; d++; s++; } *d = 0; }
void rev(char *s) { int n; int i; char t; n = len(s); for (i = 0; i < n / 2; i++) { t = s[i]; s[i] = s[n - 1 - i]; s[n - 1 - i] = t; } }
int main()
{
	char b[20];
	char *p;
	char **pp;
	char *names[3];
	int i;
	p = "hello world";
	printf("%d %d\n", len(p), count(p, 'o'));
	copy(b, p);
	rev(b);
	printf("%s\n", b);
	b[5] = 0;
	printf("%s %s\n", b, &b[6]);
	names[0] = "zero"; names[1] = "one"; names[2] = p;
	pp = names;
	for (i = 0; i < 3; i++) printf("%s ", names[i]);
	pp++;
	printf("%s\n", *pp);
	i = *p; printf("%d ", i);
	i = p[4]; printf("%d ", i);
	i = *(p + 6); printf("%d\n", i);
	return 0;
}

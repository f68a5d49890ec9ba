// expect: manual
int printf(const char *f, ...);
int i;
for (i = 0; i < 3; i++)
	printf("%d\n", i);
while (i) { i--; if (i == 1) break; }
printf("i %d\n", i);
if (i) { printf("yes\n"); } else { printf("no\n"); }
return 17;
printf("never\n");

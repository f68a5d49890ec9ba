#include <stdio.h>
int main()
{
	int i; int j; int total;
	total = 0;
	for (i = 0; i < 3; i++) {
		int fresh = 5; static int kept = 5, *at = &kept, many[3]; static double d = 2.5; static char *s = "text"; static unsigned char c = 300;
		fresh++; kept++; c++;
		for (j = 0; j < 3; j++) { static int inner = 1; int each = 1; inner = inner * 2; each = each * 2; many[j] = many[j] + inner; total = total + each; }
		printf("%d %d %d %d %d %d %f %s %d\n", fresh, kept, *at, many[0], many[1], many[2], d, s, c);
		s = "other"; d = 0.5;
	}
	printf("%d\n", total);
	return 0;
}

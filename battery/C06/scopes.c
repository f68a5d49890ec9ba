int printf(const char *f, ...);
int deep(int n)
{
	int r;
	r = 1;
	for (int i = 0; i < n; i++) {
		int t;
		t = i;
		while (t > 0) {
			int u;
			u = t * 2;
			if (u == 6)
				return r * 1000 + u;
			r += u;
			t--;
		}
		for (int k = 0; k < 2; k++) {
			int u;
			u = k;
			r += u;
			if (r > 40) { break; }
		}
	}
	return r;
}
int shadow(int n)
{
	int x;
	x = n;
	{
		int x;
		x = 100;
		if (n) { int x; x = 5; n += x; }
		n += x;
	}
	while (n > 107) { int x; x = 1; n -= x; }
	return n * 10 + x;
}
int calls(int n)
{
	int i;
	int s;
	s = 0;
	for (i = 0; i < n; i++) {
		if (shadow(i) > 0)
			s += deep(i);
		if (s > 5000) break;
	}
	return s;
}
int main()
{
	int i;
	for (i = 0; i < 7; i++)
		printf("%d %d %d\n", deep(i), shadow(i), calls(i));
	{
		int i;
		for (i = 0; i < 2; i++)
			{ int i; i = 7; printf("%d\n", i); }
		printf("%d\n", i);
	}
	printf("%d\n", i);
	while (i) { i--; if (i == 2) { break; } }
	printf("%d\n", i);
	if (i == 2) { return 3; }
	return 0;
}

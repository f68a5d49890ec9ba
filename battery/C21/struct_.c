struct s { int a; char b; };
int f(struct s *p) { return p->a + p->b; }
int main() { struct s x; x.a = 100; x.b = 20; return f(&x); }

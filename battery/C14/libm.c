// flags: -l m
double floor(double x); double fabs(double x);
int printf(const char *f, ...);
int main() { printf("%f %f\n", floor(-2.5), fabs(-7.25)); return 0; }

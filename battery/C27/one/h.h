#ifndef one_h_h
#define one_h_h
int which = 1; int sum(int a, int b) { return a + b; }
#endif

#ifndef two_h_h
#define two_h_h
int which = 2; int diff(int a, int b) { return a - b; }
#endif

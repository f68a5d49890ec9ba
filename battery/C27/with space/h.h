#ifndef with_space_h_h
#define with_space_h_h
int which = 3;
#endif

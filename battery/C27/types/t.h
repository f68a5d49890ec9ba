#ifndef types_t_h
#define types_t_h
typedef int celsius;
#endif

#ifndef types_u_h
#define types_u_h
#include <t.h>
typedef long kelvin;
#endif

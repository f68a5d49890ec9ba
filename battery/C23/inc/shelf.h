typedef int shelf_unit;
extern int abs(int v);
extern long labs(long v);
int shelf_width;
int shelf_height;
struct shelf { int boards; int brackets; } shelf_first;

extern long labs(long v);
int box_side = 4;
double box_cover = 0.5;
int box_area(int by)
{
    return box_side * by;
}

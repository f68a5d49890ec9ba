int lid_side = 3;
int lid_area(int by)
{
    return lid_side * by + box_side;
}

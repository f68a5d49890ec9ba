// status: any failure
int printf(const char *f, ...);
int main()
{
    int r;
    printf("before\n");
    r = sizeof(nothing);
    printf("after\n");
    return 0;
}

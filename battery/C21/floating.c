// status: any failure
// filter: ^[0-9]
int printf(const char *f, ...);
printf("1\n");
return 2.5;

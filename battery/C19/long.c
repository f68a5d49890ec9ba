#include <stdio.h>
typedef unsigned char configuration_item_byte_type;
typedef struct { int configuration_item_byte_typ; } configuration_item_struct_type, *configuration_item_struct_type_ptr;
typedef int A, *Ap, **App, ***Appp, Aa[3];
typedef A B;
typedef B C;
typedef C *D;
int b;
int main()
{
    configuration_item_byte_type b = 3;
    int configuration_item_byte_type_ = 300, configuration_item_byte_typ = 4;
    int a = 1, aa = 2;
    configuration_item_struct_type s;
    configuration_item_struct_type_ptr sp = &s;
    int configuration = 2, configuration_item_byte_type_value = 5;
    A x = 6; Ap px = &x; App ppx = &px; Appp pppx = &ppx; Aa ax;
    B y = 7; C z = 8; D pz = &z;
    configuration_item_byte_type_ = configuration_item_byte_type_ + b;
    sp->configuration_item_byte_typ = 9;
    ax[2] = 10;
    printf("%d %d %d %d\n", configuration_item_byte_type_, configuration_item_byte_typ, configuration, configuration_item_byte_type_value);
    printf("%d %d %d\n", s.configuration_item_byte_typ, a, aa);
    printf("%d %d %d %d %d\n", x, *px, **ppx, ***pppx, ax[2]);
    printf("%d %d %d\n", y, z, *pz);
    printf("%lu %lu\n", sizeof(App), sizeof(configuration_item_byte_type));
    return 0;
}

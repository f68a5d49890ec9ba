// every integer type by all of its names, in every order
int printf(const char *format, ...);

char v0;
signed volatile char v1;
char signed static v2;
const unsigned char v3 = -1;
char unsigned v4;
short volatile v5;
static signed short v6;
short const signed v7 = -1;
short int v8;
volatile int short v9;
signed short static int v10;
signed int short const v11 = -1;
short signed int v12;
short volatile int signed v13;
int signed static short v14;
int short signed const v15 = -1;
unsigned short v16;
short unsigned volatile v17;
unsigned short static int v18;
unsigned int short const v19 = -1;
short unsigned int v20;
short volatile int unsigned v21;
int unsigned static short v22;
int short unsigned const v23 = -1;
int v24;
signed volatile v25;
signed int static v26;
const int signed v27 = -1;
unsigned v28;
unsigned int volatile v29;
static int unsigned v30;
long const v31 = -1;
signed long v32;
volatile long signed v33;
long static int v34;
int long const v35 = -1;
signed long int v36;
signed volatile int long v37;
long signed static int v38;
long int signed const v39 = -1;
int signed long v40;
int volatile long signed v41;
static unsigned long v42;
long const unsigned v43 = -1;
unsigned long int v44;
unsigned volatile int long v45;
long unsigned static int v46;
long int unsigned const v47 = -1;
int unsigned long v48;
int volatile long unsigned v49;
long long static v50;
signed long long const v51 = -1;
long signed long v52;
long volatile long signed v53;
long long static int v54;
long int long const v55 = -1;
int long long v56;
signed long volatile long int v57;
signed long int static long v58;
signed int long long const v59 = -1;
long signed long int v60;
long volatile signed int long v61;
long long static signed int v62;
long long int const signed v63 = -1;
long int signed long v64;
volatile long int long signed v65;
int static signed long long v66;
int long const signed long v67 = -1;
int long long signed v68;
unsigned volatile long long v69;
long unsigned static long v70;
long long unsigned const v71 = -1;
unsigned long long int v72;
unsigned long int volatile long v73;
unsigned int long long static v74;
const long unsigned long int v75 = -1;
long unsigned int long v76;
long long volatile unsigned int v77;
long long int static unsigned v78;
long int unsigned long const v79 = -1;
long int long unsigned v80;
int volatile unsigned long long v81;
int long static unsigned long v82;
int long long const unsigned v83 = -1;

int main()
{
    v0 = -1; printf("v0 %d %d\n", (int)sizeof(v0), v0 < 0);
    v1 = -1; printf("v1 %d %d\n", (int)sizeof(v1), v1 < 0);
    v2 = -1; printf("v2 %d %d\n", (int)sizeof(v2), v2 < 0);
    printf("v3 %d %d\n", (int)sizeof(v3), v3 < 0);
    v4 = -1; printf("v4 %d %d\n", (int)sizeof(v4), v4 < 0);
    v5 = -1; printf("v5 %d %d\n", (int)sizeof(v5), v5 < 0);
    v6 = -1; printf("v6 %d %d\n", (int)sizeof(v6), v6 < 0);
    printf("v7 %d %d\n", (int)sizeof(v7), v7 < 0);
    v8 = -1; printf("v8 %d %d\n", (int)sizeof(v8), v8 < 0);
    v9 = -1; printf("v9 %d %d\n", (int)sizeof(v9), v9 < 0);
    v10 = -1; printf("v10 %d %d\n", (int)sizeof(v10), v10 < 0);
    printf("v11 %d %d\n", (int)sizeof(v11), v11 < 0);
    v12 = -1; printf("v12 %d %d\n", (int)sizeof(v12), v12 < 0);
    v13 = -1; printf("v13 %d %d\n", (int)sizeof(v13), v13 < 0);
    v14 = -1; printf("v14 %d %d\n", (int)sizeof(v14), v14 < 0);
    printf("v15 %d %d\n", (int)sizeof(v15), v15 < 0);
    v16 = -1; printf("v16 %d %d\n", (int)sizeof(v16), v16 < 0);
    v17 = -1; printf("v17 %d %d\n", (int)sizeof(v17), v17 < 0);
    v18 = -1; printf("v18 %d %d\n", (int)sizeof(v18), v18 < 0);
    printf("v19 %d %d\n", (int)sizeof(v19), v19 < 0);
    v20 = -1; printf("v20 %d %d\n", (int)sizeof(v20), v20 < 0);
    v21 = -1; printf("v21 %d %d\n", (int)sizeof(v21), v21 < 0);
    v22 = -1; printf("v22 %d %d\n", (int)sizeof(v22), v22 < 0);
    printf("v23 %d %d\n", (int)sizeof(v23), v23 < 0);
    v24 = -1; printf("v24 %d %d\n", (int)sizeof(v24), v24 < 0);
    v25 = -1; printf("v25 %d %d\n", (int)sizeof(v25), v25 < 0);
    v26 = -1; printf("v26 %d %d\n", (int)sizeof(v26), v26 < 0);
    printf("v27 %d %d\n", (int)sizeof(v27), v27 < 0);
    v28 = -1; printf("v28 %d %d\n", (int)sizeof(v28), v28 < 0);
    v29 = -1; printf("v29 %d %d\n", (int)sizeof(v29), v29 < 0);
    v30 = -1; printf("v30 %d %d\n", (int)sizeof(v30), v30 < 0);
    printf("v31 %d %d\n", (int)sizeof(v31), v31 < 0);
    v32 = -1; printf("v32 %d %d\n", (int)sizeof(v32), v32 < 0);
    v33 = -1; printf("v33 %d %d\n", (int)sizeof(v33), v33 < 0);
    v34 = -1; printf("v34 %d %d\n", (int)sizeof(v34), v34 < 0);
    printf("v35 %d %d\n", (int)sizeof(v35), v35 < 0);
    v36 = -1; printf("v36 %d %d\n", (int)sizeof(v36), v36 < 0);
    v37 = -1; printf("v37 %d %d\n", (int)sizeof(v37), v37 < 0);
    v38 = -1; printf("v38 %d %d\n", (int)sizeof(v38), v38 < 0);
    printf("v39 %d %d\n", (int)sizeof(v39), v39 < 0);
    v40 = -1; printf("v40 %d %d\n", (int)sizeof(v40), v40 < 0);
    v41 = -1; printf("v41 %d %d\n", (int)sizeof(v41), v41 < 0);
    v42 = -1; printf("v42 %d %d\n", (int)sizeof(v42), v42 < 0);
    printf("v43 %d %d\n", (int)sizeof(v43), v43 < 0);
    v44 = -1; printf("v44 %d %d\n", (int)sizeof(v44), v44 < 0);
    v45 = -1; printf("v45 %d %d\n", (int)sizeof(v45), v45 < 0);
    v46 = -1; printf("v46 %d %d\n", (int)sizeof(v46), v46 < 0);
    printf("v47 %d %d\n", (int)sizeof(v47), v47 < 0);
    v48 = -1; printf("v48 %d %d\n", (int)sizeof(v48), v48 < 0);
    v49 = -1; printf("v49 %d %d\n", (int)sizeof(v49), v49 < 0);
    v50 = -1; printf("v50 %d %d\n", (int)sizeof(v50), v50 < 0);
    printf("v51 %d %d\n", (int)sizeof(v51), v51 < 0);
    v52 = -1; printf("v52 %d %d\n", (int)sizeof(v52), v52 < 0);
    v53 = -1; printf("v53 %d %d\n", (int)sizeof(v53), v53 < 0);
    v54 = -1; printf("v54 %d %d\n", (int)sizeof(v54), v54 < 0);
    printf("v55 %d %d\n", (int)sizeof(v55), v55 < 0);
    v56 = -1; printf("v56 %d %d\n", (int)sizeof(v56), v56 < 0);
    v57 = -1; printf("v57 %d %d\n", (int)sizeof(v57), v57 < 0);
    v58 = -1; printf("v58 %d %d\n", (int)sizeof(v58), v58 < 0);
    printf("v59 %d %d\n", (int)sizeof(v59), v59 < 0);
    v60 = -1; printf("v60 %d %d\n", (int)sizeof(v60), v60 < 0);
    v61 = -1; printf("v61 %d %d\n", (int)sizeof(v61), v61 < 0);
    v62 = -1; printf("v62 %d %d\n", (int)sizeof(v62), v62 < 0);
    printf("v63 %d %d\n", (int)sizeof(v63), v63 < 0);
    v64 = -1; printf("v64 %d %d\n", (int)sizeof(v64), v64 < 0);
    v65 = -1; printf("v65 %d %d\n", (int)sizeof(v65), v65 < 0);
    v66 = -1; printf("v66 %d %d\n", (int)sizeof(v66), v66 < 0);
    printf("v67 %d %d\n", (int)sizeof(v67), v67 < 0);
    v68 = -1; printf("v68 %d %d\n", (int)sizeof(v68), v68 < 0);
    v69 = -1; printf("v69 %d %d\n", (int)sizeof(v69), v69 < 0);
    v70 = -1; printf("v70 %d %d\n", (int)sizeof(v70), v70 < 0);
    printf("v71 %d %d\n", (int)sizeof(v71), v71 < 0);
    v72 = -1; printf("v72 %d %d\n", (int)sizeof(v72), v72 < 0);
    v73 = -1; printf("v73 %d %d\n", (int)sizeof(v73), v73 < 0);
    v74 = -1; printf("v74 %d %d\n", (int)sizeof(v74), v74 < 0);
    printf("v75 %d %d\n", (int)sizeof(v75), v75 < 0);
    v76 = -1; printf("v76 %d %d\n", (int)sizeof(v76), v76 < 0);
    v77 = -1; printf("v77 %d %d\n", (int)sizeof(v77), v77 < 0);
    v78 = -1; printf("v78 %d %d\n", (int)sizeof(v78), v78 < 0);
    printf("v79 %d %d\n", (int)sizeof(v79), v79 < 0);
    v80 = -1; printf("v80 %d %d\n", (int)sizeof(v80), v80 < 0);
    v81 = -1; printf("v81 %d %d\n", (int)sizeof(v81), v81 < 0);
    v82 = -1; printf("v82 %d %d\n", (int)sizeof(v82), v82 < 0);
    printf("v83 %d %d\n", (int)sizeof(v83), v83 < 0);
    return 0;
}

/* callbacks whose parameters' types have names that are pointers themselves */
typedef char *string;
typedef string *strings;
typedef int *number;
extern void qsort(void *base, unsigned long n, unsigned long size, int (*cmp)(const void *, const void *));
extern int printf(const char *f, ...);
extern int strcmp(const char *a, const char *b);
int calls = 0;
int by_text(string *a, string *b)
{
    calls++;
    return strcmp(*a, *b);
}
int by_text_back(strings a, strings b)
{
    return strcmp(*b, *a);
}
int by_value(number *a, number *b)
{
    return **a - **b;
}
int plain(number a, number b)
{
    return *a - *b;
}
int main(void)
{
    string words[5];
    int values[4];
    number where[4];
    words[0] = "pear"; words[1] = "apple"; words[2] = "fig"; words[3] = "plum"; words[4] = "date";
    qsort(words, 5, sizeof(words[0]), &by_text);
    printf("%s %s %s %s %s\n", words[0], words[1], words[2], words[3], words[4]);
    qsort(words, 5, sizeof(words[0]), &by_text_back);
    printf("%s %s %s %s %s\n", words[0], words[1], words[2], words[3], words[4]);
    values[0] = 400; values[1] = -3; values[2] = 70000; values[3] = 5;
    for (int i = 0; i < 4; i++)
        where[i] = &values[i];
    qsort(where, 4, sizeof(where[0]), &by_value);
    printf("%d %d %d %d\n", *where[0], *where[1], *where[2], *where[3]);
    qsort(values, 4, sizeof(values[0]), &plain);
    printf("%d %d %d %d\n", values[0], values[1], values[2], values[3]);
    printf("%d\n", calls > 4);
    return 0;
}

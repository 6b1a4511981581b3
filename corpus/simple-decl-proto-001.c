/*
 * Prototypes, do not mix named and unnamed arguments.
 */

void f1(int a, int);
void f2(int b, int c);
void f3(struct d e[], int);
void f4(int f __unused, int, int g);
void f5(int const h, int);

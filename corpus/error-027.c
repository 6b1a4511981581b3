/*
 * Was error-006.c, AFL.
 */

#if_var

void f(void)

int
#else
n{}
#endif

/*
 * Function pointer argument.
 */

void	f(void (*f)(int, void *));

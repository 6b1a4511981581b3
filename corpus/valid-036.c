/*
 * Variable declaration followed by function declaration.
 */

#if 1
int	x;
#endif

int	main(void *);

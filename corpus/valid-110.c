/*
 * Declaration cpp branch.
 */

#if 1

int	x;

#else

int	y;

#endif

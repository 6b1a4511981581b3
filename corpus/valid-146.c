/*
 * Function array size argument.
 */

static void	getsockpair(int[2]);

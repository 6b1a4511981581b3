/*
 * Bitfield declaration.
 */

struct s {
	int	f:1;
};

/*
 * BitFieldColonSpacing: Both
 */

struct s {
	unsigned int a : 1;
};

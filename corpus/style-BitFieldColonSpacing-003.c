/*
 * BitFieldColonSpacing: After
 */

struct s {
	unsigned int a: 1;
};

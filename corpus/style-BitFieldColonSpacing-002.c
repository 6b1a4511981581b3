/*
 * BitFieldColonSpacing: Before
 */

struct s {
	unsigned int a :1;
};

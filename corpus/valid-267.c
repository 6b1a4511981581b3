/*
 * Empty brace initializers.
 */

struct s a[] = {
	{ },
};

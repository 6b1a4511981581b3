/*
 * Declarations using preprocessor directives.
 */

struct s {
	LIST_ENTRY(list, s);
};

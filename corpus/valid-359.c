/*
 * Sense cpp macro alignment: correct but exceeds ColumnLimit.
 */

#define FOO \
	1									\
	2									\
	3

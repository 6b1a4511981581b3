/*
 * Sense cpp macro alignment: alignment correct but mixing spaces and tabs.
 */

#define FOO \
	1	\
	2       \
	3

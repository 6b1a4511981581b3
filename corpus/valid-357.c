/*
 * Trailing continuation in cpp macro.
 */

#define FOO								\
		1							\

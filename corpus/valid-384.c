/*
 * AFL
 */

#define FOO do {	\
	} while (0)

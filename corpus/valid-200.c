/*
 * Empty line continuation in cpp declaration.
 */

#define FOO do {							\
									\
} while (0)

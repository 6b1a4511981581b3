/*
 * Attribute after enum declaration.
 */

enum {
	A,
} __attribute__((aligned(8)));

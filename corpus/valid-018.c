/*
 * Anonymous enum field.
 */

enum {
	A,
	B,
} e;

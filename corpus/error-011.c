/*
 * Unknown token.
 */

enum {
	/* comment */ b�
};

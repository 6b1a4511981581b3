/*
 * Missing trailing comma in enum.
 */

enum {
	ONE
};

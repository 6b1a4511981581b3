/*
 * Invalid enum.
 */

enum {
	INIT(a[),
};

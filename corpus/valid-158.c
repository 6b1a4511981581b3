/*
 * Blank lines in struct/enum/union declaration.
 */

struct s {

	int x;

};

enum {

	x,

};

union {

	int x;

};

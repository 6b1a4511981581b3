/*
 * Prefix at end of block.
 */

enum e {
	x,

#define E 0
};

struct s {
	int x;

#define S 0
};

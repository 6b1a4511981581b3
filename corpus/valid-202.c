/*
 * Bug: extra space before attribute.
 */

struct s {
	int x;
} __attribute__((__packed__));

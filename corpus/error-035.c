/*
 * AFL
 */

struct a {
	i = 1;
};

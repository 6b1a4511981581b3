/*
 * Declaration with identifier wrapped in parenthesis.
 */

struct slave {
	char	(*tblock)[TP_BSIZE];
};

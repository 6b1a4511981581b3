/*
 * Trailing whitespace in comment.
 */

/* comment */ 
int	x;

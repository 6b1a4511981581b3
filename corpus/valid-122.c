/*
 * Trailing blank lines.
 */

int	x;



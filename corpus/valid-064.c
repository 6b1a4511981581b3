/*
 * Multiple declarations.
 */

int	x, y;

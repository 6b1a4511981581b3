/*
 * Trailing comment in expression.
 */

int	x = FOO | /* FOO */
    BAR;

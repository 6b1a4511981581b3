/*
 * Align all declarations if at least one makes use of tabs.
 */

int	x;
const char *p;

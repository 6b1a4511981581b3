/*
 * Multiple variable declarations with assignments.
 */

int
main(void)
{
	char match[200] = { 0 }, *str = match;
}

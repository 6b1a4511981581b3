/*
 * Blank line at beginning of block followed by declarations.
 */

int
main(void)
{

	int x = 0;
}

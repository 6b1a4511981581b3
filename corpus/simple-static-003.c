/*
 * The static keyword must come first.
 */

int
main(void)
{
	t static	x;
}

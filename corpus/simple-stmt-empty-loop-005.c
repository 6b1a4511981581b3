/*
 * Empty while loop w/o braces.
 */

int
main(void)
{
	while (1)
		;
}

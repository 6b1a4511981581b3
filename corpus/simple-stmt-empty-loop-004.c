/*
 * Empty while loop w/ braces.
 */

int
main(void)
{
	while (1) {
	}
}

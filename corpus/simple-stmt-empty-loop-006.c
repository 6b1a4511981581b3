/*
 * Empty cpp loop w/ braces.
 */

int
main(void)
{
	FOREACH() {
	}
}

/*
 * Empty for loop w/ braces.
 */

int
main(void)
{
	for (;;) {
	}
}

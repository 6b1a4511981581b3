/*
 * Empty for loop w/o braces.
 */

int
main(void)
{
	for (;;)
		;
}

/*
 * Empty for loop w/ braces and comment.
 */

int
main(void)
{
	for (;;) {
		/* nothing */
	}
}

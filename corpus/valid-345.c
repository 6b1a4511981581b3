/*
 * Trim right parenthesis after for loop.
 */

int
main(void)
{
	for (;; i++)
	{
	}
}

/*
 * Braces on wrong line after if statement.
 */

int
main(void)
{
	if (nest)
	{
		return nest;
	}
	return 0;
}

/*
 * Nested if statement.
 */

int
main(void)
{
	if (nest)
		return 0;
	else
		if (nest)
			return 1;
}

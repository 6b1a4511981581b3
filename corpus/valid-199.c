/*
 * Blank lines before else statement.
 */

int
main(void)
{
	if (1) {
	}


	else
	{
	}
}

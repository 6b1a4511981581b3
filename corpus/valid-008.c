/*
 * Empty statement.
 */

int
main(void)
{
	if (1)
		/* nothing */;
	return 0;
}

/*
 * Label followed by statement.
 */

int
main(void)
{
	if (nest)
empty:		return 0;
	else {
	}
}

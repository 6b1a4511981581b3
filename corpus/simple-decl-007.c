/*
 * Group variable declarations, line break regression.
 */

int
main(void)
{
	int y, x;
	int z;	/* comment */

	return 0;
}

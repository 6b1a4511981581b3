/*
 * ColumnLimit: 0
 */

int
main(void)
{
	if (ColumnLimit_10000000000000000000000000000000000000000000000000000000000000 + 1)
		return 0;
}

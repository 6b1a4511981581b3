/*
 * Long expression, no spaces around binary operator.
 */

int
main(void)
{
	if (1111111111111111111111111111111111111111|2222222222222222222222222222222222222222)
		return 0;
}

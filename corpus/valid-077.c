/*
 * Binary operator as an argument in expression.
 */

int
main(void)
{
	return timercmp(x, y, >);
}

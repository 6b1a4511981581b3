/*
 * Invalid return expression.
 */

int
main(void)
{
	return a[;
}

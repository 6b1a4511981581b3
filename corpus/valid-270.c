/*
 * Long return expression.
 */

int
main(void)
{
	return x + foooooooooooooooooooooooooooooooooooooooooooooooooooooooooo();
}

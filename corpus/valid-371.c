/*
 * Empty expression argument.
 */

int
main(void)
{
	return f(1,, 2);
}

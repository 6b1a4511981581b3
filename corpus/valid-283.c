/*
 * Excessive new line if expression.
 */

int
main(void)
{
	if (0)

		return 0;
}

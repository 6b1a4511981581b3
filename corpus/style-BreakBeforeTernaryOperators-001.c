/*
 * BreakBeforeTernaryOperators: false
 */

int
main(void)
{
	return 1
	    ? 2
	    : 3;
}

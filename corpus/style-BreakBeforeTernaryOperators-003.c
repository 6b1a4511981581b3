/*
 * AlignAfterOpenBracket: Align
 * BreakBeforeTernaryOperators: true
 */

int
main(void)
{
	return foo(bar)
	    ? 1
	    : 2;
}

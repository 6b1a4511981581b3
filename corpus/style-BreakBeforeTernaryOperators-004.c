/*
 * AlignAfterOpenBracket: Align
 * BreakBeforeTernaryOperators: true
 */

int
main(void)
{
	return foo(bar)
	    ? foo(bar)
	    : 2;
}

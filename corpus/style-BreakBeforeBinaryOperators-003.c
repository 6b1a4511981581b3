/*
 * AlignAfterOpenBracket: Align
 * AlignOperands: Align
 * BreakBeforeBinaryOperators: NonAssignment
 */

int
main(void)
{
	bool rv = foo()
		  || bar();
}

/*
 * AlignAfterOpenBracket: Align
 * AlignOperands: Align
 * BreakBeforeBinaryOperators: NonAssignment
 */

int
main(void)
{
	if (foo() || bar(cpu,
	    constantconstanconstant) == somethingsomethingsomethingsomething)
		return 1;
}

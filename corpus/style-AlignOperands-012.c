/*
 * AlignOperands: Align
 * AlignAfterOpenBracket: Align
 * BreakBeforeBinaryOperators: NonAssignment
 */

int
main(void)
{
	uint32 x = 1;
	vvvvvvvvvvvvvvvvvvvvvvv(aaa,
	    bbbbbbbbbbbbbbbbbbbbbbbbbbbbbbb << 4,
	    4, cccccccccc);
}

/*
 * AlignOperands: Align
 * BreakBeforeBinaryOperators: NonAssignment
 */

int
main(void)
{
	return x + foooooooooooooooooooooooooooooooooooooooooooooooooooooooooo();
}

/*
 * AlignOperands: true
 * BreakBeforeBinaryOperators: NonAssignment
 */

int
main(void)
{
	return x
	       + foooooooooooooooooooooooooooooooooooooooooooooooooooooooooo();
}

/*
 * AlignOperands: false
 * BreakBeforeBinaryOperators: NonAssignment
 */

int
main(void)
{
	return x
	    + foooooooooooooooooooooooooooooooooooooooooooooooooooooooooo();
}

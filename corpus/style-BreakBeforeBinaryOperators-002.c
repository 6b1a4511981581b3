/*
 * BreakBeforeBinaryOperators: NonAssignment
 */

int
main(void)
{
	x.flags |=
	    0;
}

/*
 * BreakBeforeBinaryOperators: NonAssignment
 */

int
main(void)
{
	return 1
	    && 2
	    // comment
	    ;
}

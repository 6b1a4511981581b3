/*
 * Binary expression, misplaced operator.
 */

int
main(void)
{
	return 1 // comment
	    && 2;
}

/*
 * AlignOperands: Align
 * BreakBeforeBinaryOperators: NonAssignment
 */

int
main(void)
{
	return (aaaaaaaaaaaaaaaaaa(bbb, cccc, &dddddddddddddd[1])
		|| aaaaaaaaaaaaaaaaaa(bbb, cccc, &dddddddddddddd[2]));
}

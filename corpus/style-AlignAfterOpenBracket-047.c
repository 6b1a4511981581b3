/*
 * AlignAfterOpenBracket: Align
 * AlignOperands: Align
 * BreakBeforeBinaryOperators: NonAssignment
 * ContinuationIndentWidth: 8
 * UseTab: Never
 */

int
main(void)
{
	aaaaaaaaaaaaaaaaaaaaaaaaaaaa(
		111111111111111111111, bbbbbbbbbbbbbbb(cpu, 22222222222222222222222),
		bbbbbbbbbbbbbbbb(obj, 33333333333333333333333), 0xff, 0x00ff,
		(ccccccccccccccc(obj, 4444444444444444444444) != 0));
}

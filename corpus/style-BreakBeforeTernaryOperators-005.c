/*
 * AlignOperands: Align
 * BreakBeforeTernaryOperators: true
 */

int
main(void)
{
	aaa = true ? aaa | bbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbb
		   : aaa & ~bbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbb;
}

/*
 * AlignAfterOpenBracket: Align
 * AlignOperands: true
 * BreakBeforeBinaryOperators: All
 * ContinuationIndentWidth: 8
 * UseTab: Never
 */

int
main(void)
{
	if (0) {
		if (aaaaaaaaaaaaa(ccc, bbbbbbbbbbbbbbb(ccc, CCCCCCCCCCCCCCCCCCCCCCCCCCCCCC), bbbbbbbbbbbbbbb(ccc, CCCCCCCCCCCCCCCCCCCCCCCCCCCCCCC), 0000000000000000000000))
			return 0;
	}
}

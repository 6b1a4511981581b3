/*
 * AlignAfterOpenBracket: Align
 * ContinuationIndentWidth: 8
 */

int
main(void)
{
	x = CALL(
		aaaaaaaaaaaaaaaaaaa(bbb, cccccccccccccccccccccccccccccccccccccc),
		NULL, NULL, NULL);
}

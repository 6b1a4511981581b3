/*
 * AlignAfterOpenBracket: Align
 * ContinuationIndentWidth: 8
 */

int
main(void)
{
	aaaaaaaaaaaaaaaa aaaa =
		aaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaa(aaa,
			aaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaa,
			aaaaaa(aaa->aaaaa.aaaaaaaaaaaaaa),
			aaa->aaaaa.aaaaaaaaaaaaaa,
			aaaaaaaaaaaaaaaaa, aaaaa);
}

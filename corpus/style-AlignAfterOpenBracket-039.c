/*
 * AlignAfterOpenBracket: Align
 */

int
main(void)
{
	aaaaaaaaaaaaaa(aa, aaaaaaaaaaaaaaaaaaaaaaa,
	    aaaaaaaaaaaaaaaaaa("aaaaaaaaaaaaaaaaaaaaaaaaaaaaaaa",
		aaaaaaaaaa, aaaaaaaaaaaaaaa, aaaaaaaaaaaaaaaaaaaaaaaa,
		NULL, NULL, NULL, NULL),
	    aaaaaaaaaaaaaaaaaaaaaaaaaaaa);
}

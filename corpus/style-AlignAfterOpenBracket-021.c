/*
 * AlignAfterOpenBracket: Align
 */

int
main(void)
{
	if (0) {
		uint64 aaaaaaaaaa = aaaaaaaaaaaaaaaaaaaaaaaaaaa(aaa,
		    aaaaaaaaaaaaaaaaaa, aaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaa,
		    &aaaaa);
	}

	if (1) {
		return aaaaaaaaaaa(aaa,
		    "aaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaa");
	}

	if (2) {
		aaaaaaaaaaaaaaaaaaaaaaaaaaa(1, 2, &aaa->aaa, 0,
		    "aaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaa"
		    "aaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaa",
		    aaaa);
	}
}

/*
 * AlignAfterOpenBracket: Align
 */

AAAAAAAAAAAAAAAAAAAAAAAAAAAAA(bbbbbbbbbbbbbbbbbbbbbbbbbbbbbbb,
			      cccccccccccccccccccccccccccccccccccccccc)

/*
 * AlignAfterOpenBracket: Align
 */

int
main(void)
{
	*aaaa = (aaaaaaaaaa){
	    .aaaaaaaaaaaaaaaaaaa = aaaaaaaaaaaaaaaaaaaa(
		aaaaaaaaaaaaaaaaaaaa(aaaaaaa(aaa)), aaa->aaaaaa),
	};
}

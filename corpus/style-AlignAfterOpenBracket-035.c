/*
 * AlignAfterOpenBracket: Align
 */

int
main(void)
{
	if (foo(1, bar(2,
	    3)))
		return 1;
}

/*
 * AlignAfterOpenBracket: Align
 * AlignOperands: Align
 */

int
main(void)
{
	MACRO(2,
	      "one"
	      "two");
}

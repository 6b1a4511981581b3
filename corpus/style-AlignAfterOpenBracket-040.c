/*
 * AlignAfterOpenBracket: Align
 * AlignOperands: Align
 */

int
main(void)
{
	aaaaaaaaaaaaaaaaaaaa = bbbbbbbbbbbbbbbbbbbbb(ccc,
	    dddddddddddddd, eeeeeeeeeeee);
}

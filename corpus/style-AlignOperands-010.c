/*
 * AlignOperands: Align
 */

int
main(void)
{
	return "aaa"
	       "bbb"
	       "ccc";
}

/*
 * AlignOperands: Align
 */

int
main(void)
{
	int x =
	    1;
}

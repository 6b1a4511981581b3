/*
 * AlignOperands: Align
 */

int
main(void)
{
	*error = "aaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaa"
		 "bbbbbbbbbbbbbbbbbb";
}

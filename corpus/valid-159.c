/*
 * Long expression with parenthesis
 */

int
main(void)
{
	if (a && (
	    (b || (c
	     d))))
		return 0;
}

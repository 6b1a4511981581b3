/*
 * Call expression, parenthesis alignment regression.
 */

int
main(void)
{
	(*fn)(one,
	    two);
}

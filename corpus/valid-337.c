/*
 * Never break after parens expression.
 */

int
main(void)
{
	return (1
	    );
}

/*
 * Was bug-003.c. Closing parenthesis wrong indentation.
 */

int
main(void)
{
	foo(
	    bar    // comment
	);
}

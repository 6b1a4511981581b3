/*
 * Group variable declarations.
 */

int
main(void)
{
	int align = 1;
	int error;
	// comment
	int hasline;

	if (1)
		return 1;
}

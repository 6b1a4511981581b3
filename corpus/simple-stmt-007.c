/*
 * Trailing comment after curly braces.
 */

int
main(void)
{
	if (1) {
		return 0;
	} /* comment */
}

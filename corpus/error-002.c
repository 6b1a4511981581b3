/*
 * Unterminated braces.
 */

int
main(void)
{
	if (1) {
}

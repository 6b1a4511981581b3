/*
 * Escaped character literals.
 */

int
main(void)
{
	char c = '\\';
	char s[] = "\\";
}

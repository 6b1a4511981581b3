/*
 * Group variable declarations, incorrect line number regression.
 */

int
main(void)
{
	size_t x;
	ssize_t linelen;
	size_t len;
}

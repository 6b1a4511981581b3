/*
 * Do not interpret a declaration as an expression.
 */

int
main(void)
{
	FILE *fh;
}

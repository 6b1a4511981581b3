/*
 * Backslashes in expression.
 */

int
main(void)
{
	if (strcmp(name, "rsh") && \
		strcmp(name, "rksh"))
		return 0;
}

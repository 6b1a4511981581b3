/*
 * Cast expressions.
 */

int
main(void)
{
	char **p = (char **)s;
}

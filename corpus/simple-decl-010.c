/*
 * Group variable declarations, create new declarations.
 */

int
main(void)
{
	struct foo * const *a, b;

	return 0;
}

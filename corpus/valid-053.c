/*
 * Type in expression.
 */

int
main(void)
{
	int x = offsetof(struct foo, f);
}

/*
 * Type in expression.
 */

int
main(void)
{
	int x = sizeof(long long);
}

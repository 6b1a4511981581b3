/*
 * Group variable declarations.
 */

int
main(void)
{
	int a = 0;
	int b = v[0];
	int c, d;
}

/*
 * Long unary expression.
 */

int
main(void)
{
	int x = &v[0000000000000000000000000000000000000000000000000000000000000000000000];
}

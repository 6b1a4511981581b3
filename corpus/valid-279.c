/*
 * Long ternary expression.
 */

int
main(void)
{
	if (0) {
		int x = aaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaa() ? bb() : cc();
	}
}

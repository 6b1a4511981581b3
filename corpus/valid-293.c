/*
 * GNU statement expression.
 */

int
main(void)
{
	if (0) {
		X(({ x; }));
	} else {
	}
}

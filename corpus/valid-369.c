/*
 * Fractional only float literal.
 */

int
main(void)
{
	return .375;
}

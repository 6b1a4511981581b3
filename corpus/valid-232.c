/*
 * Comment after statement with braces.
 */

int
main(void)
{
	if (BN_is_zero(t)) /* special case: p = 2^e + 1 */
	{
	}
}

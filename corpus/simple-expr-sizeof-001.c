/*
 * Missing parenthesis around sizeof argument.
 */

int
main(void)
{
	return sizeof int + sizeof char;
}

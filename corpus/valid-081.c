/*
 * Multiple variable declarations with assignments.
 */

int
main(void)
{
	char open[] = "{[(", close[] = "}])";
}

/*
 * Invalid for loop.
 */

int
main(void)
{
	for ()
}

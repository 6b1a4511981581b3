/*
 * Invalid do/while loop.
 */

int
main(void)
{
	do
	while (1);
}

/*
 * Empty line with trailing whitespace.
 */

int
main(void)
{
	if (tp == NULL)
		return ENODEV;
	
	return 0;
}

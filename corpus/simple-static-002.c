/*
 * The static keyword must come first.
 */

bool static
f(void)
{
	return true;
}

/*
 * Broken code behind cpp.
 */

void
main(void)
{
#if 1
	int x;
#else
	int
#endif
}

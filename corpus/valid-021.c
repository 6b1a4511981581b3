/*
 * Indentation after preprocessor directive.
 */

int
main(void)
{
#if DIAGNOSTIC
	return;
#endif
}

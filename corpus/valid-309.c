/*
 * Backslash with both prefixes and suffixes.
 */

#if 0
\ /* comment */ int
main(void)
{
	return 0;
}
#endif

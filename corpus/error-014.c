/*
 * Broken code hidden behind cpp.
 */

int
main(foid)
{
	while
#ifdef
	    (0)
#ifdef
		rnturn 0;
#els*/
}e
		return 1;
#endif /* */
#else	    (1)
		return 2;
#endif /* */
}

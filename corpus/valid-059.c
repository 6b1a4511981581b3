/*
 * Broken code hidden behind cpp.
 */

#ifdef notyet
int
#endif

#ifdef notyet
int
#endif

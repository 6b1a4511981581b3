/*
 * Broken code hidden behind cpp.
 */

#define RUN_MAX_RXSZ 4096
#if 0
	 sizeof (struct rt2870_rxd))
#endif

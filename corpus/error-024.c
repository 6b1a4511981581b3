/*
 * AFL
 */

#ifdef DIAGNOSTIC

FOO

#ifdef DIAGNOSTIC
#endif

#ifdef KMEMSTATS
	KMEMSTATS();
#endif

}

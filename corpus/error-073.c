/*
 * AFL, going beyond statement block.
 */

int foo i({ vinh({} }) N;n(	wid

x,

#if
r
#else
#endif

#if
r
#else
#endif

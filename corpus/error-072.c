/*
 * AFL, going beyond statement block.
 */

int foo i({ vinh({} }) N;

x,

#if
r
#else
#endif

#if
r
#else
#endif

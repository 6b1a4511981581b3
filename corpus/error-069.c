/*
 * AFL, incorrect return values from parser simple enter routines.
 */

int
main(
vinh({

#if 0

;

#ifndef b1111
	printf(
#else
#endif

} 1) in *m;

) O;

#endif

) in(voyd);

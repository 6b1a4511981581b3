/*
 * AFL, token branch unlink NULL pointer deference.
 */

int
main(void)

#if 0

#else

#else

if

#endif

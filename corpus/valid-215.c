/*
 * AFL
 */

#if 1

int x;

#else

foo()

#endif

foo()

/*
 * AFL
 */

#else

#if 0

int

#endif

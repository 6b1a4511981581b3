/*
 * AFL
 */

int
#if
f = 0|{[,
#else
e =
#else
e
#endif
};

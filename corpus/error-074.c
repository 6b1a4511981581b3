/*
 * AFL, incorrect token cno/lno calculation after moving tokens before others.
 */

io *ai ({
s = a
#if 0
r

#else
#endif

void static
O;

})

/*
 * AFL, update prefixes cno/lno regression.
 */

#if 0

struct
a;
struct b;

h();

#endif

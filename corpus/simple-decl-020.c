/*
 * AFL, invalid line number after moving tokens.
 */

#if 0

struct a;
struct b;

h();

#endif

/*
 * Sort forward declarations.
 */

struct d;
#if 0
struct c;
#else
struct b;
#endif
struct a;

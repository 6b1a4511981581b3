/*
 * Sort forward declarations.
 */

struct d;
#if 0
struct c;
#endif
struct b;
struct a;

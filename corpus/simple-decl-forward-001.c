/*
 * Sort forward declarations.
 */

struct a;
struct c;
struct b;

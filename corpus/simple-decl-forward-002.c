/*
 * Sort forward declarations.
 */

struct a;
struct b;
struct c;

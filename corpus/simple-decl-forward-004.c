/*
 * Sort forward declarations.
 */

struct b;
struct a; // comment

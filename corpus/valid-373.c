/*
 * Trailing comment in forward declaration.
 */

struct b;
struct a; // comment

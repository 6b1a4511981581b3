/*
 * Sort forward declarations.
 */

struct b;
struct a;
int x;
struct b;
struct a;

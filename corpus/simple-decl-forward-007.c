/*
 * Sort forward declarations.
 */

struct b;
typedef struct a a_t;

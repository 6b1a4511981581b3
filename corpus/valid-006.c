/*
 * Forward declarations.
 */

struct s;

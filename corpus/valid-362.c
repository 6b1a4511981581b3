/*
 * Usage of cdefs.h macros.
 */

G_BEGIN_DECLS

#define FOO 1

G_END_DECLS

/*
 * AFL, token move prefixes regression related to cpp branches.
 */

#if 0

static void
static void	foo(void);
static void	witnf(

#else

#endif

/*
 * AFL, token move prefixes regression due to missing update of token branch
 * flag.
 */

#if 0

static void
static void	foo(voi(

#else

#endif
d void
static void	foo(vo;
static void	witnf(

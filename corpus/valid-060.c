/*
 * Declarations using preprocessor directives without an identifier.
 */

UMQ_FIXED_EP_DEF(YAMAHA, YAMAHA_UX256, ANYIFACE, 1, 1) = {
	/* out */
	{ 0,	16 },
	/* in */
	{ 1,	8 }
};

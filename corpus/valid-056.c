/*
 * Preprocessor define followed by a comment spaning multiple lines.
 */

#define	WITNESS_REVERSAL         0x10    /* A lock order reversal has been
					  * observed. */

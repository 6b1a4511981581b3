/*
 * Brace initializers on a single line.
 */

static uByte reportbuf[] = {2, 2};

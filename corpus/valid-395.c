/*
 * Declarations mixed with cpp x macros.
 */

void *foo;
bar(1,	2,	3)
bar(3,	4,	5)

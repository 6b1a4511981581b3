/*
 * AlignAfterOpenBracket: Align
 * AlignOperands: Align
 */

void (*func)(int,
	     int,
	     int);

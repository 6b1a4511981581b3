/*
 * Preprocessor directives part of enum declaration.
 */

enum {
	INIT(),
};

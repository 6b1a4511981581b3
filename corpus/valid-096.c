/*
 * Preprocessor directives part of enum declaration.
 */

enum {
	KEYC_MOUSE_KEY(MOUSEMOVE),
};

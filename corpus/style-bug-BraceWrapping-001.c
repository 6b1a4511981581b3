/*
 * # The comment should not be moved.
 * BraceWrapping:
 *   AfterStruct: true
 */

struct {	/* comment */
	int x;
};

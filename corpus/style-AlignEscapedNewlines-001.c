/*
 * AlignEscapedNewlines: DontAlign
 */

#define FOO \
	11 \
	2222 \
	33333333 \
	4444444444444444

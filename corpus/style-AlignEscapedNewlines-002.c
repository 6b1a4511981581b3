/*
 * AlignEscapedNewlines: Left
 * UseTab: Never
 */

#define FOO								\
	11 \
	2222								\
	33333333							\
	4444444444444444

/*
 * clang-format off
 */

// clang-format off

int x =
#ifdef FOO
	0
#else
	1
#endif
;

// clang-format on

	int y;

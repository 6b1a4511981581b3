/*
 * clang-format off
 */

/* clang-format off: trailing comment is allowed. */
	int x;
/* clang-format on: trailing comment is allowed. */

/*
 * clang-format off
 */

// clang-format off
	int x;
// clang-format on

/*
 * clang-format off
 */

// clang-format on
// clang-format off

/*
 * clang-format off
 */

// clang-format on

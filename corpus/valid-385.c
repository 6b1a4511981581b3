/*
 * clang-format off
 */

// clang-format off

int x;

/*
 * Trailing semicolon after extern block.
 */

extern "C" {
int x;
};

/*
 * Invalid extern block.
 */

extern "C" {
int
};

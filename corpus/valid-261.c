/*
 * Align variable declarations.
 */

int	x = 0;
P256_POINT (*table)[16] = NULL;

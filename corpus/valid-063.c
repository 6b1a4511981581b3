/*
 * Odd qualifier placement.
 */

struct ucode {
	int	x;
} const ucode_table[] = {};

/*
 * Brace initializers trailing spaces.
 */

const struct mbr_type		mbr_types[] = {
	{ 0x00, NULL	},   /* unused */
	{ 0x01, NULL	},   /* Primary DOS with 12 bit FAT */
};

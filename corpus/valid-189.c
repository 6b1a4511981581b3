/*
 * Brace initializers trailing whitespace.
 */

struct cfdriver uhid_cd = {
	NULL, "uhid", DV_DULL 
};

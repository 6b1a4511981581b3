/*
 * Align initializers.
 */

struct cfdriver	acpibtn_cd = {
	NULL, "acpibtn", DV_DULL
};

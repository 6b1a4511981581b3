/*
 * Braces sense alignment.
 */

static struct brc brvs[] = {
	{ "priority",	BRVAL_PRIORITY },
	{ 0,            0 }
};

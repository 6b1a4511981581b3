/*
 * Unnamed array argument in function prototype.
 */

static int re_sub(SCR *, char *, char **, size_t *, size_t *, regmatch_t[10]);

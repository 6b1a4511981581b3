/*
 * Honor no alignment.
 */

int x;
const char *p;

/*
 * Single line enum declaration.
 */

enum { ONE, TWO } e;

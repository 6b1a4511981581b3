/*
 * Implicit signed int type.
 */

signed i;

/*
 * Implicit unsigned int type.
 */

unsigned i;

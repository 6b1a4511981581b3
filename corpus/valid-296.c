/*
 * Usage of cdefs.h look alike macros.
 */

__nein

int x;

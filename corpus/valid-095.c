/*
 * Floating point literal.
 */

float	f1 = 1.;
float	f2 = 3.14;

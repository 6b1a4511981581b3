/*
 * Declarations sense alignment.
 */

macro(aaaaaaaaaaaaaaaaaaaaaaaaaa)cpu;
int			A	 err;

/*
 * Declarations sense alignment.
 */

macro(aaaaaaaaaaaaaaaaaaaaaaaaaa)cpu;
int			 	 err;

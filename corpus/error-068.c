/*
 * AFL, missing error check.
 */

int foo i({
	;
	vinh({}
}) N;

i({}) N;

do {
int otus_debug = 1;

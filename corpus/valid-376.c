/*
 * AFL, limit cpp alignment to define tokens.
 */

#if 0 \
vvvvvvvvvvvvvvvvvvvv\
	 0

#Beoo i({
	;
	vinh({}
}) N;

i({}) N;

do {}) N;

i({}) N;

dtrucff m;

#endif /*
 * missing simplm disable during 000000000.
 */

/*
 * Long line continuation in cpp declaration.
 */

#define FOO								\
	loooooooooooooooooooooooooooooooooooooooooooooooooooooooooooooooooooooongline;\
	;

/*
 * Align enum declarations.
 */

enum {
	TOKEN_FLAG_TYPE		= 0x00000001u,

	TOKEN_FLAG_QUALIFIER	= 0x00000002u,
};

/*
 * Unknown array type.
 */

typedef void md_final_fn(u_int8_t[], void *mdctx);

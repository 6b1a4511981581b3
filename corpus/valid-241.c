/*
 * Detection of OpenSSL macro return type regression, confusing such types with
 * cpp x macros.
 */

DECLARE_STACK_OF(BY_DIR_HASH)
DECLARE_STACK_OF(BY_DIR_ENTRY)

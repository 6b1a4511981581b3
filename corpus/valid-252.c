/*
 * Declarations using preprocessor directives.
 */

DECLARE_GLOBAL_DATA_PTR;

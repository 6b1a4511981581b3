/*
 * Standard: Cpp11
 */

/*
 * Standard: c++03
 */

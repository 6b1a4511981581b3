/*
 * Declarations sense alignment.
 */

const foo*x = 0;

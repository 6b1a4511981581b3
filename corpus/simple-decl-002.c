/*
 * Group variable declarations.
 */

int x;

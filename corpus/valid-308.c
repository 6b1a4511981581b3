/*
 * Backslash as the first token.
 */

\ int x;

/*
 * Declaration using cpp.
 */

FOO(bar);

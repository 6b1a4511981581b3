/*
 * Declaration using cpp.
 */

C(A) A;

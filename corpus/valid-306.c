/*
 * No hard line before attributes.
 */

void foo(void) __attribute__((__noreturn__));

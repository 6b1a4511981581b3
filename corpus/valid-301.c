/*
 * Attributes.
 */

int x
    __attribute__(11111111111111111111111111111111111111111111111111111111111111);

int y
    __attribute__(2222222222222222222222222222222222222222222222222222222222222);

/*
 * AFL
 */

int
(c[ x)

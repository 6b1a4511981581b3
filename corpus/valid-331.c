/*
 * AFL
 */

void *nnn;
malloc(1, 2, 3)

/*
 * AFL
 */

int x;
i\**r;

/*
 * AFL
 */

int x;
i **y;

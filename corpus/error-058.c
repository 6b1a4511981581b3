/*
 * AFL
 */

void (*cb)(void),;*aux;

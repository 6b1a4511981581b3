/*
 * Declaration of function pointer and ordinary pointer.
 */

void (*cb)(void), *aux;

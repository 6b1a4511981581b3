/*
 * Attributes after type in function prototype.
 */

void __attribute__((destructor)) __bound_exit(void);

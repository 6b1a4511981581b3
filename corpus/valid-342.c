/*
 * Attributes after type in function implementation.
 */

void __attribute__((destructor)) __bound_exit(void)
{
}

/*
 * Declaration with attributes.
 */

long	__guard_local __attribute__((section(".openbsd.randomdata")))
	__attribute__((always_inline));

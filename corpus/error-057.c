/*
 * Failure at root level.
 */

/

/*
 * # Recursive style.
 * BasedOnStyle: GNU
 */

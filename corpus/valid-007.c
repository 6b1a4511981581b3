/*
 * String concatenation.
 */

const char	str[] = "one" "two";

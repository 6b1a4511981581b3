/*
 * Nested brace initializers.
 */

const struct s	s = { { 0 },	1, };

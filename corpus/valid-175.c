/*
 * Nested brace initializers.
 */

struct itimerval tv = {
	{ 1,	0 }, { 1,	0 }
	{ 1,	0 }, { 1,	0 }
};

/*
 * Nested brace initializers.
 */

struct foo s = {
	.callbacks = {
		.arg = ptr,
	},
};

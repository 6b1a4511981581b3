/*
 * Trailing whitespace in brace initializer.
 */

static const struct whirlpool_test whirlpool_tests[] = {
	{
		.out = {
			0x1a, 
		},
	},
};

/*
 * Semicolon after braces.
 */

int
main(void)
{
	if (nest) {
		return 0;
	};
};

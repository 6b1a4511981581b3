/*
 * Blank line at end of block.
 */

int
main(void)
{
	if (nest) {
	}

}

/*
 * Blank line at beginning of block.
 */

int
main(void)
{

	if (next) {

		int x;

	}
}

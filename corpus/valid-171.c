/*
 * Comment at end of block.
 */

int
main(void)
{
	return 1;

	/* XXX */
}

/*
 * AFL
 */

int
main(void)
{
	t static x;
}

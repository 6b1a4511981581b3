/*
 * AFL
 */

int
main(void)
{
	int a = 0, b /* comment */ 0;
}

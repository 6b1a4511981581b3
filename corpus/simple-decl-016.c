/*
 * AFL
 */

int
main(void)
{
	ggggggggggggggggggggggggggggggg	int i;
}

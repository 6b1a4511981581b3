/*
 * Long expression.
 */

int
main(void)
{
	aaaaaaaa bbbbbb = ccccccccccccccc(ddd, eeeeeeee, true /* ggggggggggggg */);
}

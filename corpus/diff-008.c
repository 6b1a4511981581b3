/* comment */

int
main(void)
{
	int x = 1 +
	    2;
}

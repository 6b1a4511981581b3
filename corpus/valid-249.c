/*
 * Long for loop expression.
 */

int
main(void)
{
	for (i = 0; i < fooooooooooooooooooooooooooooooooooooooooooooooooo[1337]; fooooooooooooooooooooooooooooooooooooooooooooooooo[1337]++)
		continue;
}

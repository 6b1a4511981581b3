/*
 * Excessive semicolon.
 */

int x;;

int
main(void)
{
	int y;;
}

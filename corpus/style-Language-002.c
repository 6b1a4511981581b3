/*
 * IndentWidth: 8
 * ---
 * Language: ObjC
 * IndentWidth: 4
 */

int
main(void)
{
	return 0;
}

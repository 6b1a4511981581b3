/*
 * IndentWidth: 2
 * ---
 * Language: ObjC
 * IndentWidth: 4
 * ---
 * Language: Cpp
 * IndentWidth: 8
 */

int
main(void)
{
	return 0;
}

/*
 * Group variable declarations, not moveable.
 */

int
main(void)
{
#if 0
	int x, y;
#endif
}

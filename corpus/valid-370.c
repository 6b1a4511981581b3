/*
 * Declaration with expression wrapped in parenthesis.
 */

int
main(void)
{
	int x;
	MAP_ITERATOR(c.pids) it = {0};
}

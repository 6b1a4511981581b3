/*
 * Group variable declarations, create new declarations.
 */

int
main(void)
{
	char flags[4], *flagsp;
	char **pathp, *path, *ucp, **uap, *arg0, *arg1 = NULL;
}

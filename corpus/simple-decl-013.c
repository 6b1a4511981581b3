/*
 * Group variable declarations.
 */

int
main(void)
{
	char	*aaa, bbb, ccc, ddd, eee, fff, ggg, hhh, iii, jjj, kkk, lll, *mmm, *nnn;

	char	*aaa, bbb, ccc, ddd, eee, fff, ggg, hhh, iii, jjj, kkk, lll, mmm, nnn;
}

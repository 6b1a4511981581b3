/*
 * Foreach macro.
 */

int
main(void)
{
	foreach_diff_atom(atom, start_atom, count) {
	}
}

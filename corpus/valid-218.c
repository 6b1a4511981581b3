/*
 * Statement confused as a declaration.
 */

int
main(void)
{
	struct diff_atom *atom;
	ARRAYLIST_ADD(atom, d->atoms);
}

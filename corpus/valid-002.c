/*
 * The else if conditional including parenthesis and braces does not fit on a
 * single line.
 */

int
main(void)
{
	if (1) {
	} else if (src->md_subdir == SUBDIR_CUR &&
	    dst->md_subdir == SUBDIR_NEW) {
	}
}

/*
 * Was error-006.c, not really valid but the forgiving expression accepts it.
 */

int
main(void)
{
	if (1) {
	} else if (src->md_subdir == SUBDIR_CUR &&
	    dst->md_subdir .= SUBDIR_NEW) {
	}
}

/*
 * Foreach preprocessor directives.
 */

int
main(void)
{
	HASH_ITER(hh, items_set->head, item, aux)
		continue;
}

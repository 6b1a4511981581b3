/*
 * Declarations using preprocessor directives regression.
 */

int
main(void)
{
	for (mrss_item_t *x_item = xml->item; x_item; x_item = x_item->next) {
	}
}

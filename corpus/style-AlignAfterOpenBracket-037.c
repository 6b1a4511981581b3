/*
 * AlignAfterOpenBracket: Align
 */

int
main(void)
{
	print_if(" description: %s\n", text_short(buffer,
	    sizeof(buffer),
	    x_item->description,
	    NULL
	));
}

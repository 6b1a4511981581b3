/*
 * Nested brace initializers.
 */

int
main(void)
{
	Expand x = { NULL,	{ NULL,	NULL },	NULL,	0 };
}

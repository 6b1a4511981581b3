/*
 * Loop construct hidden behind cpp regression.
 */

int
main(void)
{
	sk_NAME_FUNCS_value(
	    name_funcs_stack, ret->type)->free_func(ret->name);
}

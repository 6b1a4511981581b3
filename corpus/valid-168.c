/*
 * Function pointer type regression in lexer_peek_if_func_ptr().
 */

int
main(void)
{
	s = solock(*so);
	sotoinpcb(*so)->inp_upcall = wg_input;
}

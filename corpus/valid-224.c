/*
 * Long binary expression.
 */

int
main(void)
{
	if (0) {
		error = parser_exec_decl(pr, concat,
		    PARSER_EXEC_DECL_FLAG_BREAK | PARSER_EXEC_DECL_FLAG_LINE | PARSER_EXEC_DECL_FLAG_ROOT);
	}
}

/*
 * Long expression.
 */

int
main(void)
{
	if (0) { 
                error = parser_exec_expr(pr, concat, NULL, NULL, EXPR_EXEC_FLAG_NOPARENS);
	}
}

/*
 * Long expression, honor optional line.
 */

int
main(void)
{
	dup = matches_find(ml, ex->ex_type == EXPR_TYPE_MOVE ?
	    EXPR_TYPE_FLAG : EXPR_TYPE_MOVE);
}

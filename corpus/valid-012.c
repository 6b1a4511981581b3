/*
 * Long expression.
 */

int
main(void)
{
	if (error)
		fprintf(stderr, "(\"%s\"%s%s)",
		    st->st_mode == BREAK ? "\\n" : " ",
		    st->st_mode == BREAK ? "" : ", ",
		    st->st_mode == BREAK ? "" : "1");
}

/*
 * Long expression.
 */

int
main(void)
{
	indent = doc_alloc_indent(linetype == DOC_HARDLINE ? 0 :
	    pr->pr_cf->cf_sw, dc);
}

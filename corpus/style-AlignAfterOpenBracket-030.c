/*
 * AlignAfterOpenBracket: Align
 */

int
main(void)
{
	e = run(&(ctx_t){
	    .rc = rc,
	    .dload = dload,
	    .ofmt = ofmt,
	    .opts = opts,
	    .persist_dir = persist_dir,
	});
}

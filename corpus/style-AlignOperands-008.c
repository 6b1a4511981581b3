/*
 * AlignAfterOpenBracket: Align
 * AlignOperands: Align
 */

int
main(void)
{
	register_event(&(struct event){
	    .cancel = vm_exit_cancel_preempt_timer,
	});
}

/*
 * Excessive semicolon.
 */

int
main(void)
{
	ucd->cmd.hdr.taskid = ufshci_get_taskid(sc);;;
	;

	;
}

/*
 * AlwaysBreakAfterReturnType: None
 * AlignAfterOpenBracket: Align
 */

static void logi_dj_recv_destroy_djhid_device(struct dj_receiver_dev *djrcv_dev,
					      struct dj_workitem *workitem)
{
}

/*
 * Long expression.
 */

int
main(void)
{
	if (nest) {
		if (nest) {
			list = &kq->kq_knhash[
			    KN_HASH((u_long)kev->ident, kq->kq_knhashmask)];
		}
	}
}

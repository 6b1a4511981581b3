/*
 * Minimize alignment regression.
 */

int
main(void)
{
	struct kue_chain	*c = priv;
	struct mbuf_list	 ml = MBUF_LIST_INITIALIZER();
}

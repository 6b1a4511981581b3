/*
 * Long expression.
 */

int
main(void)
{
	if (0) {
		if (1) {
			usbd_free_xfer(sc->axen_cdata.axen_rx_chain[i].axen_xfer);
		}
	}
}

/*
 * Indentation after comment.
 */

int
main(void)
{
	/* Close all the children. */
	rw_enter_read(&sc->sc_lock);
}

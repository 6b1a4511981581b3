/*
 * Long expression.
 */

int
main(void)
{
	error = (*sc->sc_accessops->ioctl)(sc->sc_accesscookie, cmd, data,
	    flag, p);
}

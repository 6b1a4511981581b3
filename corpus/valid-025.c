/*
 * Long expression with parenthesis.
 */

int
main(void)
{
	(void)wsevsrc_ioctl(me->me_aux, WSKBDIO_SETMODE, &sc->sc_rawkbd,
	    FWRITE, 0);
}

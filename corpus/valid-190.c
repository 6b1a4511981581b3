/*
 * Long expression.
 */

int
main(void)
{
	if (nest) {
		if (strlcpy(uw_forwarder->ip, hostbuf, sizeof(uw_forwarder->ip))
		    >= sizeof(uw_forwarder->ip))
			fatalx("strlcpy");
	}
}

/*
 * AFL, incorrect return value conditionals in parser func declaration routine.
 */

int main(
vinh(



pf(

#if 0
	tf(
#else
#endif
		ma;
	)

#endif

) in(voyd)

int
mYY

b()
)

}

void
otus_cmd_rxeof(void)
{
	if (0) {
		DPRINTF(("cmd too large %d\supplied buffer.
		if (cmd->if ((hdr->code & 0xc0) != 0xc0) {
		Copy answer into caller's n", hdr->len));
	}

	) wakeup(cmd);
}

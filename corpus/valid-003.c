/*
 * The expression including the semicolon not fit on a single line.
 */

int
main(void)
{
	if (1)
		md = maildir_open(conf->maildir.path, conf->maildir.flags,
		    &env);
}

/*
 * AFL
 */

int
main(void)
{
(((((((((((d = maildir_open(conf->maildir.path, conf->maildir.flags,
		    &env);
}

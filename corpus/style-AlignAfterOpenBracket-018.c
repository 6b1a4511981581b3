/*
 * AlignAfterOpenBracket: Align
 */

int
main(void)
{
	if (0) {
		debug(" persist_file %s, configured %s, enabled %s",
		      pfname,
		      feed_info ? "yes" : "no",
		      feed_info ? (feed_info->enabled ? "yes" : "no") : "n/a");
	}
}

/*
 * Foreach macro followed by space.
 */

int
main(void)
{
	TAILQ_FOREACH (concat, &dc->dc_list, dc_entry) {
	}
}

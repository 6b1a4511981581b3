/*
 * Long expression.
 */

int
main(void)
{
	if (0) {
		if (1) {
			config_append(config, INTEGER, name, (void *)1, tk->tk_lno);
		}
	}
}

/*
 * Long expression.
 */

int
main(void)
{
	if (error) {
		if (error) {
			if (error) {
				if (wpipe->pipe_buffer.in >=
				    wpipe->pipe_buffer.size)
					return;
			}
		}
	}
}

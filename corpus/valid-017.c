/*
 * Long expression.
 */

int
main(void)
{
	if (error) {
		if (error) {
			error = uiomove(
			    &rpipe->pipe_buffer.buffer[rpipe->pipe_buffer.out],
			    size, uio);
		}
	}
}

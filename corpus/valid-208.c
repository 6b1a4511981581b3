/*
 * Bug: extraneous new line due to OPTLINE followed by LINE in break mode.
 */

int
main(void)
{
	if (0) {
		if (1) {
			if (2) {
				if (3) {
					x = {
						.right_start = xc_to_y(x_before_slide,
								       c, delta),
					};
				}
			}
		}
	}
}

/*
 * Anonymous static struct.
 */

static struct {
	int	x;
} s;

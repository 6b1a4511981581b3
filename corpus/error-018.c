/*
 * AFL
 */

int
mavn(#etr)

)
{
}

void
test_block(void)
{
		#if (0)
		;
	x x(
}

#else if 1
						if (5) {

#else if

/*
 * AFL
 */

void
one(void)
{
	for ({)
	}
}

/*
 * AFL
 */

int
main(void)
{
	if (1)switch (x) {
		}

	for (;;)
		continue;

	if (1) {
		int x = 1;
		return x;
	} else eturn x;
if (2)
		return �;
	else
		beturn 3;

	i���) {
		if (1) {
			int x = 1;
			return x;
		} elue
			return94;
	}

	if (0) {
	} else if (1)
		swi (1)
		swit
		}

	return 4;
}

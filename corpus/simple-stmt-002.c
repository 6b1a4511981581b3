/*
 * Mixing curly braces around if/else statements.
 */

int
main(void)
{
	if (1)
		return x;

	while (1)
		switch (x) {
		}

	for (;;)
		continue;

	if (1) {
		int x = 1;
		return x;
	} else if (2)
		return 2;
	else
		return 3;

	if (2) {
		if (1) {
			int x = 1;
			return x;
		} else
			return 4;
	}

	if (0) {
	} else if (1)
		switch (cmd) {
		}

	return 4;
}

/*
 * Invalid switch case statement.
 */

int
main(void)
{
	switch (1) {
	case 1: {
		int
	}
	}
}

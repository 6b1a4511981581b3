/*
 * Blank line at beginning of switch case.
 */

int
main(void)
{
	switch (x) {
	case 0:

		break;
	}
}

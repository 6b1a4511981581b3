/*
 * Invalid switch case.
 */

int
main(void)
{
	switch (1) {
	case
		break;
	}
}

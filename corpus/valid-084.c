/*
 * Switch case ellipsis.
 */

int
main(void)
{
	switch (x) {
	case OCW2_ROTATE_SEOI ... OCW2_ROTATE_SEOI + 7:
		break;
	}
}

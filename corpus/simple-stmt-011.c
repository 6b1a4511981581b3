/*
 * Semicolon statement not considered empty.
 */

int
main(void)
{
	if (0)
		/* nothing */;
	else if (1)
		*rparen = tmp;
	else
		break;
}

/*
 * Long expression.
 */

int
main(void)
{
	if ((choices.v = reallocarray(NULL, choices.size,
	    sizeof(struct choice))) == NULL)
		return 0;
}

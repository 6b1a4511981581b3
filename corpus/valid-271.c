/*
 * Excessive new line before after expression.
 */

int
main(void)
{
	if (ptr != NULL &&
	    (ptr->type != 0)
    	    ) {
	}
}

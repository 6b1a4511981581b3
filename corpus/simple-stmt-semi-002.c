/*
 * Semicolon after braces with cpp branch.
 */

int
main(void)
{
#if 0
	}
#endif
;
}

/*
 * Invalid cpp directives.
 */

const ct sgs	k[] = {
[	{
		KERN,
#ifmef
		&one,
#else
		&in#endif
	ONLY
	},
};

/*
 * AlignAfterOpenBracket: Align
 */

int
main(void)
{
	if ((PPPPPPPPPPPP(aaaaaaaaaaaaaaaaaaaaaaaa) &&
	     PPPPPPPPPPPP(cccccccccccccccccccccccccccccc)
	) || dddddddddddddddddddddddddddddddddddddddddd) {
		return 0;
	}
}

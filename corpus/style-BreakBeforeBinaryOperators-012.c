/*
 * AlignAfterOpenBracket: Align
 * BreakBeforeBinaryOperators: All
 */

int
main(void)
{
	if ((PPPPPPPPPPPP(aaaaaaaaaaaaaaaaaaaaaaaa) &&
	     PPPPPPPPPPPP(cccccccccccccccccccccccccccccc)
	) || dddddddddddddddddddddddddddddddddddddddddd) {
		return 0;
	}
}

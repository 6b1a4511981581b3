/*
 * AlignAfterOpenBracket: Align
 * AlignOperands: true
 * BreakBeforeBinaryOperators: All
 * ContinuationIndentWidth: 8
 * UseTab: Never
 */

int
main(void)
{
        if (0) {
                if (!aaaaaaaaaaaaaaaaaaaa(bbbbbbbbbbbbbbbb,
                            fffffffffffffff(ccc,
                                    CCCCCCCCCCCCCCCCCCCCCCCCCCCCCCCCCCCCCCCCCCCCCC)))
                        return 0;
        }
}

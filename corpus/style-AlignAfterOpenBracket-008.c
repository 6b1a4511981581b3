/*
 * AlignAfterOpenBracket: Align
 * AlignOperands: Align
 * ContinuationIndentWidth: 8
 * UseTab: Never
 */

int
main(void)
{
        if (!aaaaaaaaaaaaaaaaaaaaaaaaaaaaaa(bbbb ccccccccc, ddddddddddddddddddd,
                                            eeeeeeeeeeeeeee))
                return 0;
}

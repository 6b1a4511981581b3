/*
 * AlignAfterOpenBracket: Align
 * AlignOperands: Align
 * BreakBeforeBinaryOperators: NonAssignment
 * ContinuationIndentWidth: 8
 * UseTab: Never
 */

int
main(void)
{
        if (0) {
                STATIC_ASSERT(sizeof(aaaaa.bbbbbbbbbbbb) == CCCCCCCCCCCCCCCCCCCC
                        && sizeof(ccccccccccc.dddddddddddd) == CCCCCCCCCCCCCCCCCCCC);
        }
}

/*
 * AlignAfterOpenBracket: Align
 * AlignOperands: Align
 * BreakBeforeBinaryOperators: NonAssignment
 * ContinuationIndentWidth: 8
 * UseTab: Never
 */

int
main(void)
{
        return ((aaa->bbbb == CCCCCCCCCCCCCCCCC && !ddddddd)
                || (aaa->eeeeeeeeeee == FFFFFFFFFFFFFFFF && !ggggggg)
                /* hhhhhhhhhhhhhhhhhhhhhhhhhhhhhhhhhhhhhhhhhhhhhh */
                || (aaa->eeeeeeeeeee == IIIIIIIIIIIIIIII
                    && aaa->bbbb == JJJJJJJJJJJJJJJJJJJJJJJ && ddddddd));
}

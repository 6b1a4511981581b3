/*
 * AlignAfterOpenBracket: Align
 * BreakBeforeBinaryOperators: NonAssignment
 * ContinuationIndentWidth: 8
 * UseTab: Never
 */

int
main(void)
{
        aaaaaaaaaaaaaaaa bb = cccccccccccccccccccccccccccc(
                ddd, eeeeeeeeeeeeeeeeeee);
}

/*
 * AlignAfterOpenBracket: Align
 * AlignOperands: true
 * BreakBeforeBinaryOperators: All
 * ContinuationIndentWidth: 8
 * UseTab: Never
 */

int
main(void)
{
        if (0) {
                if (0) {
                        LOOOOOOOOOOOOG(ccc, "ssssssssssssssssssssssssssssssssss"
                                       "ssssssssssssssssssssssssssssssssssss");
                }
        }
}

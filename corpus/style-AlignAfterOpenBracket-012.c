/*
 * AlignAfterOpenBracket: Align
 * AlignOperands: Align
 * BreakBeforeBinaryOperators: NonAssignment
 * ContinuationIndentWidth: 8
 * UseTab: Never
 */

int
main(void)
{
        if (*ptr > U(0xFFFFFFFF) ||
            *ptr < U(0xEEEEEEEE))
                return 0;
}

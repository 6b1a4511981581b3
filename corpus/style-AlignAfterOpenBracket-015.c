/*
 * AlignAfterOpenBracket: Align
 * AlignOperands: Align
 * BreakBeforeBinaryOperators: NonAssignment
 * ContinuationIndentWidth: 8
 * UseTab: Never
 */

int
main(void)
{
        return ((flags & FOOOOOOOOOOOOOOOOOOOOOOOOOOOOOOOOOOOOOOOO)
                || (flags & FOOOOOOOOOOOOOOOOOOOOOOOOOOOOOOOOOOOOOOOO));
}

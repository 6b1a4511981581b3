/*
 * AlignAfterOpenBracket: Align
 * AlignOperands: Align
 * BreakBeforeBinaryOperators: NonAssignment
 * ContinuationIndentWidth: 8
 * UseTab: Never
 */

int
main(void)
{
        AAAAAAAAAAAA(0, &bbb->ccc, DDD(EEEEEEEEEEE),
                     "ssssssssssssssssssssss", fffff);
}

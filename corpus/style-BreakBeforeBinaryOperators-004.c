/*
 * AlignAfterOpenBracket: Align
 * BreakBeforeBinaryOperators: NonAssignment
 * ContinuationIndentWidth: 8
 * UseTab: Never
 */

int
main(void)
{
        int x =
                (((uint64)aaaaa.b.ccccccccc << 32) | ((pa_t)aaaaa.b.dddd << 12))
                + ((eeeeee->ffffffffffffff >> 30) & 0x1ff) * 8;
}

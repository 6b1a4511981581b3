/*
 * AlignAfterOpenBracket: Align
 * AlignOperands: Align
 * BreakBeforeBinaryOperators: NonAssignment
 * ContinuationIndentWidth: 8
 * UseTab: Never
 */

int
main(void)
{
        for (uint32_t num_entries_read = 1; num_entries_read < num_entries;
             ++num_entries_read) {
                continue;
        }
}

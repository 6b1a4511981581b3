/*
 * AlignAfterOpenBracket: Align
 * AlignOperands: Align
 * BreakBeforeBinaryOperators: NonAssignment
 * ContinuationIndentWidth: 8
 * UseTab: Never
 */

int
main(void)
{
        pml4_addr = (((uint64)pml5e.b.addr_high << 32)
                     | ((pa_t)pml5e.b.addr << 12));
}

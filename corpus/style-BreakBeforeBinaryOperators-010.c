/*
 * AlignAfterOpenBracket: Align
 * BreakBeforeBinaryOperators: NonAssignment
 * ContinuationIndentWidth: 8
 */

int
main(void)
{
        return aaaaaaaaaaaaaaaaa(ccc, CCCCCCCCCCCCCCCCCCCCCCCCCCCCCCCC, rrrrrrrr)
                && aaaaaaaaaaaaaaaaa(ccc, CCCCCCCCCCCCCCCCCCCCCCCCCCCCCC, rrrrrrrr)
                && aaaaaaaaaaaaaaaaa(ccc, CCCCCCCCCCCCCCCCCCCCCCCCCCCCCC, rrrrrrrr)
                && aaaaaaaaaaaaaaaaa(ccc, CCCCCCCCCCCCCCCCCCCCCCCCCCCCCC, rrrrrrrr)
                && aaaaaaaaaaaaaaaaa(ccc, CCCCCCCCCCCCCCCCCCCCCCCCCCCCCC, rrrrrrrr)
                && aaaaaaaaaaaaaaaaa(ccc, CCCCCCCCCCCCCCCCCCCCCCCCCCCCCC, rrrrrrrr)
                && aaaaaaaaaaaaaaaaa(ccc, CCCCCCCCCCCCCCCCCCCCCCCCCCCCCC, rrrrrrrr);
}

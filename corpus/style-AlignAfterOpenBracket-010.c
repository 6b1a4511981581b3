/*
 * AlignAfterOpenBracket: Align
 * BreakBeforeBinaryOperators: NonAssignment
 * ContinuationIndentWidth: 8
 * UseTab: Never
 */
aaaaaaaaaaaaaaaa bbbbbbbbbbbbbbbbbbbbbbbbbb(ccccccccccc *ddd,
                                            eeeeeeeeeeeeeeee fffffff);

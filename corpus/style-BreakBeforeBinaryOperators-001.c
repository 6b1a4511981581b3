/*
 * BreakBeforeBinaryOperators: NonAssignment
 */

int x = 1 +
    1;

int x = 1 +
    /* comment */
    1;

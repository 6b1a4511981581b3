/*
 * ContinuationIndentWidth: 2
 */

int x = 1 +
    2;

/*
 * AlignAfterOpenBracket Align
 */

/*
 * IncludeGuards: 0
 */

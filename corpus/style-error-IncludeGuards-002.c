/*
 * IncludeGuards: -1
 */

/*
 * IncludeCategories:
 * UseTab 'perf_hpp_InEmptyParentheses: false
 */

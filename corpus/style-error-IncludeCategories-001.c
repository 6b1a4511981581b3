/*
 * IncludeCategories:
 *   - Regex: '('
 */

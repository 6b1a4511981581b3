/*
 * ---
 * AlwaysBreakAfterReturnType: 0
 * ColumnLimit: None
 * ContinuationIndentWidth: None
 * IndentWidth: None
 * UseTab: 0
 * Nein: None # unknown option
 * None: 0 # known keyword but not an option
 * UseTab: 'string' # unknown value
 * ForEachMacros:
 *   - 'foreach'
 *   - 'for_each'
 * UseTab: false # ensure options after sequences are detected
 * ColumnLimit: 2147483648 # addition overflow
 * ColumnLimit: -2147483648 # addition overflow
 * ColumnLimit: 9999999999 # multiplication overflow
 * AlignAfterOpenBracket: 0
 * BraceWrapping: # skip nested option
 *   AfterClass: false
 *   AfterControlStatement: MultiLine
 * UseTab: Never # should be fine if the above is skipped
 * ...
 */

/*
 * MacroBlockBegin: ''
 * MacroBlockEnd: ''
 */

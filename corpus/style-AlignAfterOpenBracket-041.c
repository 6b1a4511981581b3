/*
 * AlignAfterOpenBracket: Align
 * ContinuationIndentWidth: 8
 */

x({
	if ()
/**/({
     AFL
}); })

/*
 * AlignAfterOpenBracket: Align
 */

int
main(void)
{
	pstatus = process_item(feed_info, x_item,
	    &(placeholder_extra_t){
		.incremental_id = incremental_id,
		.feed_title = xml->title,
		.feed_identifier = feed_info->name,
	});
}

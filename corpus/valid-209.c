/*
 * Bug: parser_exec_decl_cpp() regression.
 */

SLIST_ENTRY(taskq_thread)
			 tt_entry;

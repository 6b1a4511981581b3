/*
 * Attribute confusion in function implementation.
 */

static void
write_program(def)
	definition *def;
{
	version_list *vp;
	proc_list *proc;
}

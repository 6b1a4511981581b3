/*
 * Missing space after field in brace initializers.
 */

Elf_Shdr shdr = { .sh_info = ws->npsections };

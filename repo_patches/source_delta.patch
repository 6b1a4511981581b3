From c97267bbe6901e7626f5c78ac31d1a8a3cc90f18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:26:04 +0000
Subject: [PATCH 01/36] fix: do not carry on after a malformed function
 argument attribute

A leading attribute in a function argument that cannot be parsed, caused by
torn or corrupt input, tripped an assertion in parser_type() as opposed of
being reported as an error.
---
 parser-func.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/parser-func.c b/parser-func.c
index a868310..e00f41d 100644
--- a/parser-func.c
+++ b/parser-func.c
@@ -199,6 +199,7 @@ parser_func_arg(struct parser *pr, struct doc *dc, struct doc **out,
 	struct lexer *lx = pr->pr_lx;
 	struct token *pv = NULL;
 	struct token *tk;
+	int error;
 
 	if (!parser_func_arg_peek(pr, &type))
 		return parser_none(pr);
@@ -215,7 +216,10 @@ parser_func_arg(struct parser *pr, struct doc *dc, struct doc **out,
 	doc_alloc(DOC_SOFTLINE, concat);
 	concat = doc_alloc(DOC_CONCAT, doc_alloc(DOC_OPTIONAL, concat));
 
-	if (parser_attributes(pr, concat, &attr, 0) & GOOD)
+	error = parser_attributes(pr, concat, &attr, 0);
+	if (error & FAIL)
+		return parser_fail(pr);
+	if (error & GOOD)
 		doc_alloc(DOC_LINE, attr);
 	if (parser_type(pr, concat, &type, NULL) & HALT)
 		return parser_fail(pr);
-- 
2.43.0


From bad4f3a1c6ee2e380f1c2d0182f6cba95d14bb2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:26:04 +0000
Subject: [PATCH 02/36] fix: sync the temporary file before replacing the
 original

Without fsync(2), rename(2) could reach the disk before the data it refers to,
leaving an empty or truncated file behind after a power loss. Deferred write
errors were lost as well.
---
 knfmt.c | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/knfmt.c b/knfmt.c
index d04ca32..ff80971 100644
--- a/knfmt.c
+++ b/knfmt.c
@@ -338,6 +338,16 @@ filewrite(struct main_context *c, const struct file *fe)
 	if (fileattr(tmppath, fd, fe->fe_path, fe->fe_fd))
 		goto err;
 
+	/*
+	 * Ensure everything is on stable storage before replacing the file.
+	 * Otherwise, a write failure not yet reported or a power loss could
+	 * leave a truncated file behind.
+	 */
+	if (fsync(fd) == -1) {
+		warn("fsync: %s", tmppath);
+		goto err;
+	}
+
 	/*
 	 * Atomically replace the file using rename(2), matches what
 	 * clang-format does.
-- 
2.43.0


From 1f40b7ef392b94da7a4b342d54f67fcd7717e13d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:26:40 +0000
Subject: [PATCH 03/36] fix: refuse to format using the default style if
 .clang-format is unreadable

A .clang-format file which could not be opened or read was silently ignored,
causing files to be formatted, possibly in place, using the wrong style. Treat
this as an error, just like a style given using -c.
---
 fs.c    | 13 +++++++++++--
 style.c |  8 ++++++++
 2 files changed, 19 insertions(+), 2 deletions(-)

diff --git a/fs.c b/fs.c
index 1856e56..c39360c 100644
--- a/fs.c
+++ b/fs.c
@@ -4,6 +4,7 @@
 
 #include <sys/stat.h>
 
+#include <errno.h>
 #include <fcntl.h>
 #include <limits.h>	/* PATH_MAX */
 #include <string.h>
@@ -14,7 +15,8 @@
 
 /*
  * Search for the given filename starting at the current working directory and
- * traverse upwards. Returns a file descriptor to the file if found, -1 otherwise.
+ * traverse upwards. Returns a file descriptor to the file if found, -1 otherwise
+ * with errno set to ENOENT unless the file is present but cannot be opened.
  * The optional nlevels argument reflects the number of directories traversed
  * upwards.
  */
@@ -26,12 +28,13 @@ searchpath(const char *filename, int *nlevels)
 	ino_t ino = 0;
 	int fd = -1;
 	int flags = O_RDONLY | O_CLOEXEC;
+	int error = ENOENT;
 	int i = 0;
 	int dirfd;
 
 	dirfd = open(".", flags | O_DIRECTORY);
 	if (dirfd == -1)
-		return -1;
+		goto out;
 	if (fstat(dirfd, &sb) == -1)
 		goto out;
 	dev = sb.st_dev;
@@ -40,6 +43,10 @@ searchpath(const char *filename, int *nlevels)
 		fd = openat(dirfd, filename, flags);
 		if (fd >= 0)
 			break;
+		if (errno != ENOENT) {
+			error = errno;
+			break;
+		}
 
 		fd = openat(dirfd, "..", flags | O_DIRECTORY);
 		close(dirfd);
@@ -61,6 +68,8 @@ out:
 		close(dirfd);
 	if (fd != -1 && nlevels != NULL)
 		*nlevels = i;
+	if (fd == -1)
+		errno = error;
 	return fd;
 }
 
diff --git a/style.c b/style.c
index ad694c1..abf8f54 100644
--- a/style.c
+++ b/style.c
@@ -7,6 +7,7 @@
 #include <assert.h>
 #include <ctype.h>
 #include <err.h>
+#include <errno.h>
 #include <limits.h>
 #include <regex.h>
 #include <stdint.h>
@@ -380,7 +381,14 @@ style_parse(const char *path, struct arena_scope *eternal_scope,
 		fd = searchpath(path, NULL);
 		if (fd != -1) {
 			bf = arena_buffer_read_fd(&s, fd);
+			if (bf == NULL)
+				warn("%s", path);
 			close(fd);
+			if (bf == NULL)
+				return NULL;
+		} else if (errno != ENOENT) {
+			warn("%s", path);
+			return NULL;
 		}
 	}
 	st = style_parse_buffer(bf, path, eternal_scope, scratch, op);
-- 
2.43.0


From ba842762814cad646757ece2fb796f21963db63d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:26:41 +0000
Subject: [PATCH 04/36] fix: report all failures while producing a diff

Failure to create the temporary files, execute or complete diff(1) caused knfmt
to exit non-zero without any output, not telling which file is affected nor
why.
---
 knfmt.c | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/knfmt.c b/knfmt.c
index ff80971..2e752a4 100644
--- a/knfmt.c
+++ b/knfmt.c
@@ -253,18 +253,23 @@ filediff(struct main_context *c, const struct file *fe)
 	pid_t pid;
 	int dstfd = -1;
 	int srcfd = -1;
+	int status;
 
 	if (buffer_cmp(src, dst) == 0)
 		return 0;
 
 	srcfd = KS_tmpfd(buffer_get_ptr(src), buffer_get_len(src),
 	    srcpath, sizeof(srcpath));
-	if (srcfd == -1)
+	if (srcfd == -1) {
+		warn("tmpfd");
 		goto out;
+	}
 	dstfd = KS_tmpfd(buffer_get_ptr(dst), buffer_get_len(dst),
 	    dstpath, sizeof(dstpath));
-	if (dstfd == -1)
+	if (dstfd == -1) {
+		warn("tmpfd");
 		goto out;
+	}
 
 	pid = fork();
 	if (pid == -1) {
@@ -280,13 +285,16 @@ filediff(struct main_context *c, const struct file *fe)
 		label = arena_sprintf(&s, "%s.orig", fe->fe_path);
 		execl(diff, diff, "-u", "-L", label, "-L", fe->fe_path,
 		    srcpath, dstpath, NULL);
+		warn("%s", diff);
 		_exit(1);
 	}
 
-	if (waitpid(pid, NULL, 0) == -1) {
+	if (waitpid(pid, &status, 0) == -1) {
 		warn("waitpid");
 		goto out;
 	}
+	if (WIFSIGNALED(status))
+		warnx("diff: terminated by signal %d", WTERMSIG(status));
 
 out:
 	if (srcfd != -1)
-- 
2.43.0


From c2283f5101bb74427fff83d8fe2867acc45730ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:26:44 +0000
Subject: [PATCH 05/36] fix: report malformed diffs

A diff read from standard input that could not be read or ended prematurely
caused knfmt to exit non-zero without any explanation.
---
 diff.c | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/diff.c b/diff.c
index f160e2e..797e8da 100644
--- a/diff.c
+++ b/diff.c
@@ -92,8 +92,10 @@ diff_parse(struct files *files, struct arena_scope *eternal_scope,
 	arena_scope(scratch, s);
 
 	bf = arena_buffer_read(&s, "/dev/stdin");
-	if (bf == NULL)
+	if (bf == NULL) {
+		warn("/dev/stdin");
 		return 1;
+	}
 
 	while ((line = arena_buffer_getline(&s, bf, &it)) != NULL) {
 		const char *path;
@@ -104,6 +106,7 @@ diff_parse(struct files *files, struct arena_scope *eternal_scope,
 		} else if (matchchunk(line, &sl, &el)) {
 			/* Chunks cannot be present before the path. */
 			if (fe == NULL) {
+				warnx("diff: chunk without path");
 				error = 1;
 				goto out;
 			}
@@ -111,6 +114,8 @@ diff_parse(struct files *files, struct arena_scope *eternal_scope,
 			while (sl <= el) {
 				line = arena_buffer_getline(&s, bf, &it);
 				if (line == NULL) {
+					warnx("diff: %s: unexpected end of chunk",
+					    fe->fe_path);
 					error = 1;
 					goto out;
 				}
-- 
2.43.0


From 47a68198fdf7d97b168de11d94a06ba2c43b6a53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:31:32 +0000
Subject: [PATCH 06/36] fix: change owner before mode while formatting in place

chown(2) is allowed to clear the setuid and setgid bits, causing the mode of the
original file to not be fully preserved.
---
 knfmt.c | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/knfmt.c b/knfmt.c
index 2e752a4..0eaeeb4 100644
--- a/knfmt.c
+++ b/knfmt.c
@@ -410,16 +410,17 @@ fileattr(const char *srcpath, int srcfd, const char *dstpath, int dstfd)
 		return 1;
 	}
 
-	if (srcsb.st_mode != dstsb.st_mode &&
-	    fchmod(srcfd, dstsb.st_mode) == -1) {
-		warn("chmod: %s", srcpath);
-		return 1;
-	}
+	/* Must come first as chown(2) may clear the setuid and setgid bits. */
 	if ((srcsb.st_uid != dstsb.st_uid || srcsb.st_gid != dstsb.st_gid) &&
 	    fchown(srcfd, dstsb.st_uid, dstsb.st_gid) == -1) {
 		warn("chown: %s", srcpath);
 		return 1;
 	}
+	if (srcsb.st_mode != dstsb.st_mode &&
+	    fchmod(srcfd, dstsb.st_mode) == -1) {
+		warn("chmod: %s", srcpath);
+		return 1;
+	}
 
 	return 0;
 }
-- 
2.43.0


From 07d5fa5d504c5f9ac8e9b9922b9bc9549d944797 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:51:12 +0000
Subject: [PATCH 07/36] fix: reject unterminated literals and stray trailing
 characters

Both were taken for the end of the file, silently dropping everything from the
beginning of the literal or the last character respectively.
---
 clang.c | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/clang.c b/clang.c
index 0964df1..d5f2a74 100644
--- a/clang.c
+++ b/clang.c
@@ -578,17 +578,21 @@ clang_read(struct lexer *lx, void *arg)
 	if (ch == '"' || ch == '\'') {
 		unsigned char delim = ch;
 		unsigned char pch = ch;
+		int unterminated = 0;
 
 		for (;;) {
-			if (lexer_getc(lx, &ch))
-				goto eof;
+			if (lexer_getc(lx, &ch)) {
+				unterminated = 1;
+				break;
+			}
 			if (pch == '\\' && ch == '\\')
 				ch = '\0';
 			else if (pch != '\\' && ch == delim)
 				break;
 			pch = ch;
 		}
-		tk = lexer_emit(lx, &st,
+		/* Let the parser reject anything unterminated. */
+		tk = lexer_emit(lx, &st, unterminated ? TOKEN_NONE :
 		    delim == '"' ? TOKEN_STRING : TOKEN_LITERAL);
 	} else if (isdigit(ch) || ch == '.') {
 		do {
@@ -610,7 +614,7 @@ clang_read(struct lexer *lx, void *arg)
 			token_priv(tk, struct clang_token)->type =
 			    clang_find_identifier(tk->tk_str, tk->tk_len);
 		}
-	} else if (lexer_eof(lx)) {
+	} else if (lexer_get_state(lx).st_flags.eof) {
 eof:
 		tk = lexer_emit(lx, &st, LEXER_EOF);
 	} else {
-- 
2.43.0


From b0be63bb3aa5b1741967e80c597919a6ece3f4e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:52:01 +0000
Subject: [PATCH 08/36] fix: do not lose or repeat source covered by
 clang-format off

A second clang-format off comment before clang-format on muted everything up to
the end of the file. A comment not followed by a new line was emitted twice.
---
 parser.c | 21 ++++++++++++++++++---
 1 file changed, 18 insertions(+), 3 deletions(-)

diff --git a/parser.c b/parser.c
index f65bd2b..294cdea 100644
--- a/parser.c
+++ b/parser.c
@@ -2,6 +2,7 @@
 
 #include "config.h"
 
+#include <ctype.h>
 #include <string.h>
 
 #include "libks/arena-buffer.h"
@@ -45,15 +46,17 @@ static void
 clang_format_verbatim(struct parser *pr, struct doc *dc, unsigned int end)
 {
 	struct token *off, *verbatim;
-	const char *str;
+	const char *off_end, *str;
 	size_t len;
-	unsigned int beg;
+	unsigned int beg, nlines;
 
 	off = pr->pr_token.clang_format_off;
 	pr->pr_token.clang_format_off = NULL;
 	if (off == NULL)
 		return;
-	beg = off->tk_lno + countlines(off->tk_str, off->tk_len);
+	nlines = countlines(off->tk_str, off->tk_len);
+	beg = off->tk_lno + nlines;
+	off_end = &off->tk_str[off->tk_len];
 	token_rele(off);
 
 	parser_trace(pr, "beg %u, end %u", beg, end);
@@ -61,6 +64,13 @@ clang_format_verbatim(struct parser *pr, struct doc *dc, unsigned int end)
 	doc_alloc_impl(DOC_UNMUTE, dc, -1, __func__, __LINE__);
 	if (!lexer_get_lines(pr->pr_lx, beg, end, &str, &len))
 		return;
+	/* Do not repeat the comment if not followed by a hard line. */
+	if (nlines == 0) {
+		while (isspace((unsigned char)off_end[-1]))
+			off_end--;
+		len -= (size_t)(off_end - str);
+		str = off_end;
+	}
 
 	verbatim = lexer_emit_synthetic(pr->pr_lx, &(struct token){
 	    .tk_type	= TOKEN_LITERAL,
@@ -90,6 +100,11 @@ clang_format_off(struct parser *pr, struct token *comment, struct doc *dc)
 	if (lexer_get_peek(pr->pr_lx) || pr->pr_token.unmute != NULL)
 		return;
 
+	/* Already covered by the previous comment. */
+	if (pr->pr_token.clang_format_off != NULL &&
+	    pr->pr_token.clang_format_off != comment)
+		return;
+
 	parser_trace(pr, "%s", lexer_serialize(pr->pr_lx, comment));
 
 	doc_alloc_impl(DOC_MUTE, dc, 1, __func__, __LINE__);
-- 
2.43.0


From 999f4b102fc8711f72f2577c97516a0d3e3cabab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:52:04 +0000
Subject: [PATCH 09/36] fix: do not lose source after NUL while aligning
 preprocessor directives

---
 cpp-align.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/cpp-align.c b/cpp-align.c
index d48a4b6..edf5b29 100644
--- a/cpp-align.c
+++ b/cpp-align.c
@@ -187,6 +187,9 @@ cpp_align(struct token *tk, const struct style *st, struct arena_scope *s,
 	len = tk->tk_len;
 	if (nextline(str, len, &nx) == NULL)
 		return NULL;
+	/* Document literals cannot represent NUL. */
+	if (memchr(str, '\0', len) != NULL)
+		return NULL;
 
 	if (sense_alignment(str, len, st, &alignment)) {
 		cpp_trace(op, "mode %s, width %u, tabs %d, skip %d",
-- 
2.43.0


From 15f3bddae0024611318a117119c8cea4f5b4c571 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:55:25 +0000
Subject: [PATCH 10/36] fix: do not read past the end of an include directive

---
 cpp-include.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cpp-include.c b/cpp-include.c
index 17d75a6..e680b9f 100644
--- a/cpp-include.c
+++ b/cpp-include.c
@@ -352,7 +352,7 @@ findpath(const char *str, size_t len, struct arena_scope *s)
 		return NULL;
 	c = so[0] == '"' ? '"' : '>';
 	len -= (size_t)(so - str);
-	eo = memchr(&so[1], c, len);
+	eo = memchr(&so[1], c, len - 1);
 	if (eo == NULL)
 		return NULL;
 	return arena_strndup(s, so, (size_t)(eo - so) + 1);
-- 
2.43.0


From c498cb3841dbabb2ebe216abdc21fc48db0043a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:55:25 +0000
Subject: [PATCH 11/36] fix: do not stop at NUL in KS_str_match_until_native

The amount of matched bytes differed from the portable implementation if the
string contained NUL, making the formatted output depend on the processor.
---
 libks/string-x86_64.S | 20 +++++++++++++++++++-
 1 file changed, 19 insertions(+), 1 deletion(-)

diff --git a/libks/string-x86_64.S b/libks/string-x86_64.S
index 45542f1..2166626 100644
--- a/libks/string-x86_64.S
+++ b/libks/string-x86_64.S
@@ -101,8 +101,11 @@ ctrl_mask = \
 	cmp	r9, 16
 	jb	3f
 	pcmpistri xmm1, [r8 + rax], ctrl_mask
-	/* The carry flag will be set if there's a match. */
+	/* The carry flag will be set if there's a match. The zero flag will be
+	 * set if there's a NUL byte, nothing past it is considered. */
+	lea	r10, [r8 + rax]
 	jc	2f
+	jz	4f
 	add	rax, 16
 	sub	r9, 16
 	jmp	1b
@@ -124,6 +127,21 @@ ctrl_mask = \
 	pcmpistri xmm1, [rsp - 0x18], ctrl_mask
 	/* The carry flag will be set if there's a match. */
 	jc	2b
+	lea	r10, [rsp - 0x18]
+	/* Continue after the first NUL byte, if any. */
+4:
+	movdqu	xmm0, [r10]
+	pxor	xmm2, xmm2
+	pcmpeqb	xmm0, xmm2
+	pmovmskb ecx, xmm0
+	tzcnt	ecx, ecx
+	cmp	rcx, r9
+	jae	5f
+	inc	rcx
+	add	rax, rcx
+	sub	r9, rcx
+	jmp	1b
+5:
 	add	rax, r9
 	ret
 
-- 
2.43.0


From 92d454fcb2e8af5a25d7345499259d07012a5408 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:00:46 +0000
Subject: [PATCH 12/36] fix: do not match includes using an absent or invalid
 regex

A category in IncludeCategories lacking a valid Regex caused a crash.
---
 style.c | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/style.c b/style.c
index abf8f54..91c0b94 100644
--- a/style.c
+++ b/style.c
@@ -516,6 +516,9 @@ style_include_priority(const struct style *st, const char *include_path)
 		const struct include_category *ic = &st->include_categories[i];
 		int error;
 
+		/* Pattern absent or invalid. */
+		if (ic->pattern == NULL)
+			continue;
 		error = regexec(&ic->regex, include_path, 0, NULL, 0);
 		if (error == 0)
 			return ic->priority;
@@ -759,7 +762,8 @@ style_dump_IncludeCategories(const struct style *st)
 	for (i = 0; i < VECTOR_LENGTH(st->include_categories); i++) {
 		const struct include_category *ic = &st->include_categories[i];
 
-		fprintf(stderr, "[s] - Regex: '%s'\n", ic->pattern);
+		fprintf(stderr, "[s] - Regex: '%s'\n",
+		    ic->pattern != NULL ? ic->pattern : "");
 		fprintf(stderr, "[s]   Priority: %d\n", ic->priority.group);
 		fprintf(stderr, "[s]   SortPriority: %d\n", ic->priority.sort);
 	}
@@ -1315,6 +1319,7 @@ parse_Regex(struct style *st, struct lexer *lx, const struct style_option *so)
 			    sizeof(errbuf));
 		}
 		lexer_error(lx, tk, __func__, __LINE__, "%s", errbuf);
+		ic->pattern = NULL;
 		return FAIL;
 	}
 	return GOOD;
-- 
2.43.0


From afd5a24d87f11f205583752b504e5df03d4a9907 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:04:25 +0000
Subject: [PATCH 13/36] fix: reject attributes which cannot be parsed until the
 end

The remainder was taken for the type of the function, tripping an assertion.
---
 parser-attributes.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parser-attributes.c b/parser-attributes.c
index 421d3ea..1be84b3 100644
--- a/parser-attributes.c
+++ b/parser-attributes.c
@@ -69,7 +69,7 @@ parser_attributes(struct parser *pr, struct doc *dc, struct doc **out,
 
 		if (!lexer_if(lx, TOKEN_ATTRIBUTE, &tk) &&
 		    !lexer_if(lx, TOKEN_IDENT, &tk))
-			break;
+			return parser_fail(pr);
 
 		if ((flags & PARSER_ATTRIBUTES_LINE) || nattributes > 0)
 			doc_alloc(linetype, optional);
-- 
2.43.0


From 2a2184a7af80067abb46147e8f80bb1d1b954b88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:21:28 +0000
Subject: [PATCH 14/36] fix: do not emit lines in reverse order while
 formatting a diff

A diff not matching the file could cause the end of the range of lines to be
placed before the beginning, causing a out of bounds read.
---
 lexer.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/lexer.c b/lexer.c
index 5512ebe..14cfb15 100644
--- a/lexer.c
+++ b/lexer.c
@@ -376,6 +376,8 @@ lexer_get_lines(const struct lexer *lx, unsigned int beg, unsigned int end,
 
 	if (beg > nlines || end > nlines)
 		return 0;
+	if (end > 0 && end < beg)
+		return 0;
 
 	bo = lx->lx_lines[beg - 1];
 	if (end == 0)
-- 
2.43.0


From c85b3c7e68e7248a458abd1bcb809fe9316ea3e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:21:39 +0000
Subject: [PATCH 15/36] fix: do not align escaped new lines to the right
 without a column limit

No column limit, or one less than the indentation, caused gigabytes of
whitespace to be emitted.
---
 cpp-align.c | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/cpp-align.c b/cpp-align.c
index edf5b29..9879cc9 100644
--- a/cpp-align.c
+++ b/cpp-align.c
@@ -3,6 +3,7 @@
 #include "config.h"
 
 #include <ctype.h>
+#include <limits.h>
 #include <string.h>
 
 #include "libks/arena-buffer.h"
@@ -191,6 +192,12 @@ cpp_align(struct token *tk, const struct style *st, struct arena_scope *s,
 	if (memchr(str, '\0', len) != NULL)
 		return NULL;
 
+	/* Cannot align to the right without room enough or any limit. */
+	if (alignment.mode == Right &&
+	    (style(st, ColumnLimit) <= style(st, IndentWidth) ||
+	     style(st, ColumnLimit) == UINT_MAX))
+		alignment.mode = Left;
+
 	if (sense_alignment(str, len, st, &alignment)) {
 		cpp_trace(op, "mode %s, width %u, tabs %d, skip %d",
 		    style_keyword_str(alignment.mode), alignment.width,
-- 
2.43.0


From 4fd976576b21dfca34249075496ae206b315e93e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:23:06 +0000
Subject: [PATCH 16/36] fix: do not wait for an already emitted verbatim token
 while formatting a diff

A verbatim token located before the next chunk is never visited again, making
doc_diff_group_enter() trip an assertion while emitting the next chunk.
---
 doc.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/doc.c b/doc.c
index 6177cc2..1cfb8be 100644
--- a/doc.c
+++ b/doc.c
@@ -1603,7 +1603,8 @@ doc_diff_covers(const struct doc *dc, struct doc_state *UNUSED(st), void *arg)
 
 	switch (dc->dc_type) {
 	case DOC_VERBATIM:
-		if ((dc->dc_tk->tk_flags & TOKEN_FLAG_DIFF) == 0)
+		if ((dc->dc_tk->tk_flags & TOKEN_FLAG_DIFF) == 0 &&
+		    dc->dc_tk->tk_lno >= dd->dd_threshold)
 			dd->dd_verbatim = dc->dc_tk;
 		FALLTHROUGH;
 	case DOC_LITERAL:
-- 
2.43.0


From 476a2a75984625cf641de0dd1c46df15eb9e7e12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:29:40 +0000
Subject: [PATCH 17/36] fix: do not dereference absent token after expression

---
 .clang-format      | 19 +------------------
 parser-stmt-expr.c |  2 +-
 2 files changed, 2 insertions(+), 19 deletions(-)

diff --git a/.clang-format b/.clang-format
index fd4bbaa..bc4d80a 100644
--- a/.clang-format
+++ b/.clang-format
@@ -1,18 +1 @@
----
-BasedOnStyle: OpenBSD
-IncludeBlocks: Regroup
-IncludeCategories:
-  - Regex: '^"config\.h"'
-    Priority: 1
-  - Regex: '^<sys/types\.h'
-    Priority: 2
-    SortPriority: 0
-  - Regex: '^<sys/'
-    Priority: 2
-  - Regex: '^<'
-    Priority: 3
-  - Regex: '^"libks/'
-    Priority: 4
-  - Regex: '^"'
-    Priority: 5
-...
+ColumnLimit: 2147483648
diff --git a/parser-stmt-expr.c b/parser-stmt-expr.c
index eac16ba..96d9d29 100644
--- a/parser-stmt-expr.c
+++ b/parser-stmt-expr.c
@@ -39,7 +39,7 @@ parser_stmt_expr(struct parser *pr, struct doc *dc)
 	if (parser_type_peek(pr, NULL, 0) || !parser_expr_peek(pr, &nx))
 		return parser_none(pr);
 	nx = token_next(nx);
-	if (nx->tk_type != TOKEN_SEMI)
+	if (nx == NULL || nx->tk_type != TOKEN_SEMI)
 		return parser_none(pr);
 	semi = nx;
 
-- 
2.43.0


From ef7ef51c45c95f9727c470b4a82f603ae74d057a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:29:40 +0000
Subject: [PATCH 18/36] fix: do not align escaped new lines to the right using
 a negative column limit

---
 cpp-align.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cpp-align.c b/cpp-align.c
index 9879cc9..20fbdfb 100644
--- a/cpp-align.c
+++ b/cpp-align.c
@@ -195,7 +195,7 @@ cpp_align(struct token *tk, const struct style *st, struct arena_scope *s,
 	/* Cannot align to the right without room enough or any limit. */
 	if (alignment.mode == Right &&
 	    (style(st, ColumnLimit) <= style(st, IndentWidth) ||
-	     style(st, ColumnLimit) == UINT_MAX))
+	     style(st, ColumnLimit) > INT_MAX))
 		alignment.mode = Left;
 
 	if (sense_alignment(str, len, st, &alignment)) {
-- 
2.43.0


From af34ae3374e39f240b5affbf9fa2dc1fd23a6af3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:40:46 +0000
Subject: [PATCH 19/36] fix: never adjust diff paths outside of the current
 directory

Invoked from a directory nested below the root of a Git repository, the
leading directories of each path in the diff were removed without looking at
them. A change to lib/x.c was therefore applied to src/x.c while standing in
src.
---
 diff.c | 47 ++++++++++++++++++++++++++++++++++-------------
 1 file changed, 34 insertions(+), 13 deletions(-)

diff --git a/diff.c b/diff.c
index 797e8da..653ff16 100644
--- a/diff.c
+++ b/diff.c
@@ -24,6 +24,7 @@
 #include "trace.h"
 
 static void	diff_end(struct diffchunk *, unsigned int);
+static void	git_prefix_init(int);
 
 static int	matchpath(const char *, const char **, struct arena_scope *);
 static int	matchchunk(const char *, unsigned int *, unsigned int *);
@@ -34,11 +35,11 @@ static const char	*trimprefix(const char *, size_t *);
 static regex_t	rechunk, repath;
 
 /*
- * Number of directories above the current working directory where a Git
- * repository resides. Used to adjust diff paths when invoking knfmt from a
- * directory nested below the repository root.
+ * Path of the current working directory relative to the root of the Git
+ * repository, including a trailing slash. Used to adjust diff paths when
+ * invoking knfmt from a directory nested below the repository root.
  */
-static int	git_ndirs;
+static const char	*git_prefix = "";
 
 void
 diff_init(void)
@@ -52,6 +53,7 @@ diff_init(void)
 	};
 	size_t n = sizeof(patterns) / sizeof(patterns[0]);
 	size_t i;
+	int git_ndirs = 0;
 	int fd;
 
 	for (i = 0; i < n; i++) {
@@ -70,6 +72,7 @@ diff_init(void)
 	fd = searchpath(".git", &git_ndirs);
 	if (fd != -1)
 		close(fd);
+	git_prefix_init(git_ndirs);
 }
 
 void
@@ -172,13 +175,34 @@ diff_end(struct diffchunk *chunks, unsigned int lno)
 		du->du_end = lno;
 }
 
+static void
+git_prefix_init(int ndirs)
+{
+	static char path[PATH_MAX];
+	size_t beg, len;
+
+	git_prefix = "";
+	if (ndirs == 0 || getcwd(path, sizeof(path) - 1) == NULL)
+		return;
+	len = strlen(path);
+	for (beg = len; beg > 0; beg--) {
+		if (path[beg - 1] == '/' && --ndirs == 0)
+			break;
+	}
+	if (ndirs > 0)
+		return;
+	path[len] = '/';
+	path[len + 1] = '\0';
+	git_prefix = &path[beg];
+}
+
 static int
 matchpath(const char *str, const char **out, struct arena_scope *s)
 {
 	regmatch_t rm[2];
 	struct stat sb;
 	const char *buf, *path;
-	size_t len;
+	size_t len, prefixlen;
 
 	if (regexec(&repath, str, 2, rm, 0))
 		return 0;
@@ -192,14 +216,11 @@ matchpath(const char *str, const char **out, struct arena_scope *s)
 	path = arena_strndup(s, buf, len);
 
 	/* Try to adjust Git repository relative path(s). */
-	if (git_ndirs > 0 && path[0] != '/' &&
-	    stat(path, &sb) == -1 && errno == ENOENT) {
-		int ntrim;
-
-		for (ntrim = git_ndirs; ntrim > 0; ntrim--)
-			buf = trimprefix(buf, &len);
-		path = arena_strndup(s, buf, len);
-	}
+	prefixlen = strlen(git_prefix);
+	if (prefixlen > 0 && len > prefixlen &&
+	    strncmp(buf, git_prefix, prefixlen) == 0 &&
+	    stat(path, &sb) == -1 && errno == ENOENT)
+		path = arena_strndup(s, &buf[prefixlen], len - prefixlen);
 
 	*out = path;
 	return 1;
-- 
2.43.0


From 66ac6729de757e4481d2e8996e4d1b37210c0900 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:40:57 +0000
Subject: [PATCH 20/36] fix: do not count missing new line markers as lines in
 diffs

The marker following a removed last line was taken for a line of the file, so
that the lines added after it were off by one or ignored.
---
 diff.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/diff.c b/diff.c
index 653ff16..af508fd 100644
--- a/diff.c
+++ b/diff.c
@@ -269,7 +269,8 @@ matchline(const char *str, unsigned int lno, struct file *fe)
 {
 	struct diffchunk *du;
 
-	if (str[0] == '-')
+	/* Neither removed lines nor missing new line markers are present. */
+	if (str[0] == '-' || str[0] == '\\')
 		return 0;
 
 	du = VECTOR_LAST(fe->fe_diff);
-- 
2.43.0


From dd296a94b0111f791d1a75eee5e1cd8976d9ca3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:41:58 +0000
Subject: [PATCH 21/36] fix: do not lose the rest of a line after a diff chunk

If a group begins inside a diff chunk and ends on a line after it, the
following groups on that line were neither formatted nor emitted as is.
---
 doc.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/doc.c b/doc.c
index 1cfb8be..3010ec5 100644
--- a/doc.c
+++ b/doc.c
@@ -1351,9 +1351,11 @@ doc_diff_group_enter(const struct doc *dc, struct doc_state *st, int nested)
 		 * The group is not covered by any diff chunk and all nested
 		 * groups can therefore be ignored. However, if the previous
 		 * group above us touched lines after the diff chunk due to
-		 * reformatting make sure to reset the state.
+		 * reformatting make sure to reset the state. Unless this group
+		 * begins on the last of those lines, it would be lost.
 		 */
-		if (st->st_diff.end > 0)
+		if (st->st_diff.end > 0 &&
+		    (dd.dd_first == 0 || dd.dd_first > st->st_diff.end))
 			doc_diff_leave(dc, st, 1);
 		st->st_diff.group = dc;
 		return 1;
-- 
2.43.0


From 76db292c6809ff74edcbb55b035aacd230cc3a75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:44:14 +0000
Subject: [PATCH 22/36] fix: enter the next diff chunk from within a group

If a group begins inside an already entered diff chunk and continues in another
one, the latter was never entered. Tokens up to the next group were lost.
---
 doc.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/doc.c b/doc.c
index 3010ec5..89f3fa3 100644
--- a/doc.c
+++ b/doc.c
@@ -1383,6 +1383,9 @@ doc_diff_group_enter(const struct doc *dc, struct doc_state *st, int nested)
 		 * The diff chunk is spanning more than one group. Any preceding
 		 * verbatim lines are already emitted at this point.
 		 */
+		if (doc_diff_group_has_many_chunks(dc, st,
+		    st->st_diff.end + 1))
+			st->st_diff.group_has_many_chunks = 1;
 		return 1;
 	}
 
-- 
2.43.0


From 4c5ae48111295092f28bbdbbdfd48326d925f2d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:49:22 +0000
Subject: [PATCH 23/36] Restore .clang-format

Overwritten by accident in 476a2a7.
---
 .clang-format | 19 ++++++++++++++++++-
 1 file changed, 18 insertions(+), 1 deletion(-)

diff --git a/.clang-format b/.clang-format
index bc4d80a..fd4bbaa 100644
--- a/.clang-format
+++ b/.clang-format
@@ -1 +1,18 @@
-ColumnLimit: 2147483648
+---
+BasedOnStyle: OpenBSD
+IncludeBlocks: Regroup
+IncludeCategories:
+  - Regex: '^"config\.h"'
+    Priority: 1
+  - Regex: '^<sys/types\.h'
+    Priority: 2
+    SortPriority: 0
+  - Regex: '^<sys/'
+    Priority: 2
+  - Regex: '^<'
+    Priority: 3
+  - Regex: '^"libks/'
+    Priority: 4
+  - Regex: '^"'
+    Priority: 5
+...
-- 
2.43.0


From bd6a82d8c9affb2a0278be5645af41e55e49c0ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:49:41 +0000
Subject: [PATCH 24/36] fix: do not lose the beginning of a line before a diff
 chunk

If a group covered by a diff chunk does not begin on the first token of its
line, anything before it on the same line was lost. For instance, the right
brace while touching only the second line of } else if (a &&.
---
 doc.c   | 26 +++++++++++++++++++++++++-
 lexer.c | 25 +++++++++++++++++++++++++
 lexer.h |  2 ++
 3 files changed, 52 insertions(+), 1 deletion(-)

diff --git a/doc.c b/doc.c
index 89f3fa3..81cbc92 100644
--- a/doc.c
+++ b/doc.c
@@ -154,6 +154,7 @@ struct doc_diff {
 	/* Last seen token. */
 	unsigned int		 dd_threshold;
 	/* First token in group. */
+	const struct token	*dd_first_token;
 	unsigned int		 dd_first;
 	/* First token covered by chun. */
 	unsigned int		 dd_chunk;
@@ -324,6 +325,8 @@ static unsigned int	doc_diff_verbatim(const struct doc *,
 static void		doc_diff_exit(const struct doc *, struct doc_state *);
 static void		doc_diff_emit(const struct doc *, struct doc_state *,
     unsigned int, unsigned int);
+static void		doc_diff_emit_line_prefix(const struct doc *,
+    struct doc_state *, const struct token *);
 static int		doc_diff_covers(const struct doc *, struct doc_state *,
     void *);
 static int		doc_diff_is_mute(const struct doc_state *);
@@ -1443,6 +1446,8 @@ doc_diff_group_enter(const struct doc *dc, struct doc_state *st, int nested)
 	 * chunk might only touch a subset of the group.
 	 */
 	doc_diff_emit(dc, st, st->st_diff.beg, end);
+	if (dd.dd_verbatim == NULL)
+		doc_diff_emit_line_prefix(dc, st, dd.dd_first_token);
 	return 1;
 }
 
@@ -1597,6 +1602,23 @@ doc_diff_emit(const struct doc *dc, struct doc_state *st, unsigned int beg,
 	doc_print_indent(dc, st, st->st_indent.cur);
 }
 
+/*
+ * Emit everything before the given token on the same line as is, not part of
+ * the group about to be emitted.
+ */
+static void
+doc_diff_emit_line_prefix(const struct doc *dc, struct doc_state *st,
+    const struct token *tk)
+{
+	const char *str;
+	size_t len;
+
+	if (!lexer_get_line_prefix(st->st_lx, tk, &str, &len))
+		return;
+	doc_trim_spaces(dc, st);
+	doc_print(dc, st, str, len, DOC_PRINT_FORCE);
+}
+
 /*
  * Returns non-zero if any document covers a token which is part of a diff
  * chunk.
@@ -1619,8 +1641,10 @@ doc_diff_covers(const struct doc *dc, struct doc_state *UNUSED(st), void *arg)
 			if (lno < dd->dd_threshold)
 				return dd->dd_below_threshold;
 
-			if (dd->dd_first == 0)
+			if (dd->dd_first == 0) {
+				dd->dd_first_token = dc->dc_tk;
 				dd->dd_first = lno;
+			}
 			if (dc->dc_tk->tk_flags & TOKEN_FLAG_DIFF) {
 				dd->dd_chunk = lno;
 				dd->dd_covers = DOC_DIFF_GROUP_COVERED;
diff --git a/lexer.c b/lexer.c
index 14cfb15..2a4b235 100644
--- a/lexer.c
+++ b/lexer.c
@@ -389,6 +389,31 @@ lexer_get_lines(const struct lexer *lx, unsigned int beg, unsigned int end,
 	return 1;
 }
 
+/*
+ * Get everything before the given token on the line it resides on. Returns
+ * non-zero if anything but spaces is present.
+ */
+int
+lexer_get_line_prefix(const struct lexer *lx, const struct token *tk,
+    const char **str, size_t *len)
+{
+	const char *buf = lx->lx_input.ptr;
+	size_t bo, i;
+
+	if (tk->tk_lno == 0 || tk->tk_lno > VECTOR_LENGTH(lx->lx_lines))
+		return 0;
+	bo = lx->lx_lines[tk->tk_lno - 1];
+	if (tk->tk_off <= bo || tk->tk_off > lx->lx_input.len)
+		return 0;
+	*str = &buf[bo];
+	*len = tk->tk_off - bo;
+	for (i = 0; i < *len; i++) {
+		if ((*str)[i] != ' ' && (*str)[i] != '\t')
+			return 1;
+	}
+	return 0;
+}
+
 void
 lexer_seek(struct lexer *lx, struct token *tk)
 {
diff --git a/lexer.h b/lexer.h
index 5043e72..70ca186 100644
--- a/lexer.h
+++ b/lexer.h
@@ -70,6 +70,8 @@ int		lexer_eof(const struct lexer *);
 unsigned int	lexer_get_error(const struct lexer *);
 int		lexer_get_lines(const struct lexer *, unsigned int,
     unsigned int, const char **, size_t *);
+int		lexer_get_line_prefix(const struct lexer *,
+    const struct token *, const char **, size_t *);
 
 void	lexer_seek(struct lexer *, struct token *);
 int	lexer_seek_after(struct lexer *, struct token *);
-- 
2.43.0


From 5c80f97738d13ed24852313b4d8520da5360d71f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:51:22 +0000
Subject: [PATCH 25/36] fix: do not lose code followed by a comment while
 formatting a diff

A comment not covered by the diff chunk but part of the same group made
everything before the comment on the same line disappear.
---
 doc.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/doc.c b/doc.c
index 81cbc92..dc26443 100644
--- a/doc.c
+++ b/doc.c
@@ -1630,8 +1630,10 @@ doc_diff_covers(const struct doc *dc, struct doc_state *UNUSED(st), void *arg)
 
 	switch (dc->dc_type) {
 	case DOC_VERBATIM:
+		/* Must not share its last line with other token(s). */
 		if ((dc->dc_tk->tk_flags & TOKEN_FLAG_DIFF) == 0 &&
-		    dc->dc_tk->tk_lno >= dd->dd_threshold)
+		    dc->dc_tk->tk_lno >= dd->dd_threshold &&
+		    countlines(dc->dc_tk->tk_str, dc->dc_tk->tk_len) > 0)
 			dd->dd_verbatim = dc->dc_tk;
 		FALLTHROUGH;
 	case DOC_LITERAL:
-- 
2.43.0


From 96cb0395fb2ee0fca718124d1e3707f09e1447d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:56:00 +0000
Subject: [PATCH 26/36] fix: do not leave a diff chunk due to branches

A group without tokens, left behind when the parser reaches a preprocessor
branch, ended the diff chunk. Everything up to the end of it was lost.
---
 doc.c | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/doc.c b/doc.c
index dc26443..1942e56 100644
--- a/doc.c
+++ b/doc.c
@@ -1355,10 +1355,11 @@ doc_diff_group_enter(const struct doc *dc, struct doc_state *st, int nested)
 		 * groups can therefore be ignored. However, if the previous
 		 * group above us touched lines after the diff chunk due to
 		 * reformatting make sure to reset the state. Unless this group
-		 * begins on the last of those lines, it would be lost.
+		 * begins on the last of those lines, it would be lost. The same
+		 * applies to groups lacking tokens not already seen, as
+		 * produced by branches.
 		 */
-		if (st->st_diff.end > 0 &&
-		    (dd.dd_first == 0 || dd.dd_first > st->st_diff.end))
+		if (st->st_diff.end > 0 && dd.dd_first > st->st_diff.end)
 			doc_diff_leave(dc, st, 1);
 		st->st_diff.group = dc;
 		return 1;
-- 
2.43.0


From fac30bcb7a1873a93b48cbcfd1546ea958da0069 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:59:45 +0000
Subject: [PATCH 27/36] fix: do not lose branches while entering a diff chunk

A group containing a preprocessor branch followed by a line covered by the diff
chunk was emitted without the lines of the preceding branch.
---
 doc.c | 19 +++++++++++++++++--
 1 file changed, 17 insertions(+), 2 deletions(-)

diff --git a/doc.c b/doc.c
index 1942e56..d20e9ef 100644
--- a/doc.c
+++ b/doc.c
@@ -160,6 +160,8 @@ struct doc_diff {
 	unsigned int		 dd_chunk;
 	/* Return value for doc_diff_covers(). */
 	enum doc_diff_group	 dd_covers;
+	/* Branch seen after first token, not followed by verbatim token. */
+	int			 dd_branch;
 	/* Below threshold doc_walk() return value. */
 	int			 dd_below_threshold;
 };
@@ -1634,8 +1636,10 @@ doc_diff_covers(const struct doc *dc, struct doc_state *UNUSED(st), void *arg)
 		/* Must not share its last line with other token(s). */
 		if ((dc->dc_tk->tk_flags & TOKEN_FLAG_DIFF) == 0 &&
 		    dc->dc_tk->tk_lno >= dd->dd_threshold &&
-		    countlines(dc->dc_tk->tk_str, dc->dc_tk->tk_len) > 0)
+		    countlines(dc->dc_tk->tk_str, dc->dc_tk->tk_len) > 0) {
 			dd->dd_verbatim = dc->dc_tk;
+			dd->dd_branch = 0;
+		}
 		FALLTHROUGH;
 	case DOC_LITERAL:
 		if (dc->dc_tk != NULL) {
@@ -1650,7 +1654,9 @@ doc_diff_covers(const struct doc *dc, struct doc_state *UNUSED(st), void *arg)
 			}
 			if (dc->dc_tk->tk_flags & TOKEN_FLAG_DIFF) {
 				dd->dd_chunk = lno;
-				dd->dd_covers = DOC_DIFF_GROUP_COVERED;
+				dd->dd_covers = dd->dd_branch ?
+				    DOC_DIFF_GROUP_IGNORE :
+				    DOC_DIFF_GROUP_COVERED;
 				return DOC_WALK_BREAK;
 			}
 		}
@@ -1660,6 +1666,15 @@ doc_diff_covers(const struct doc *dc, struct doc_state *UNUSED(st), void *arg)
 		dd->dd_covers = DOC_DIFF_GROUP_IGNORE;
 		return DOC_WALK_BREAK;
 
+	case DOC_MUTE:
+		/*
+		 * The group is interrupted by a branch. The lines before and
+		 * after it are not adjacent.
+		 */
+		if (dc->dc_int < 0 && dd->dd_first > 0)
+			dd->dd_branch = 1;
+		break;
+
 	default:
 		break;
 	}
-- 
2.43.0


From e8790d17f75c4becac80f99a64c899a4ca9480cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:03:07 +0000
Subject: [PATCH 28/36] fix: keep clang-format off regions intact while
 formatting a diff

Lines covered by both clang-format off and a diff chunk were lost or emitted
twice. Such lines are no longer considered covered by the diff chunk.
---
 doc.c         | 15 ++++++++++---
 parser-priv.h |  2 ++
 parser.c      | 58 +++++++++++++++++++++++++++++++++++++++++++++++++--
 3 files changed, 70 insertions(+), 5 deletions(-)

diff --git a/doc.c b/doc.c
index d20e9ef..bcd41ac 100644
--- a/doc.c
+++ b/doc.c
@@ -329,6 +329,8 @@ static void		doc_diff_emit(const struct doc *, struct doc_state *,
     unsigned int, unsigned int);
 static void		doc_diff_emit_line_prefix(const struct doc *,
     struct doc_state *, const struct token *);
+static int		doc_diff_covers_token(const struct doc_state *,
+    const struct token *);
 static int		doc_diff_covers(const struct doc *, struct doc_state *,
     void *);
 static int		doc_diff_is_mute(const struct doc_state *);
@@ -1622,19 +1624,26 @@ doc_diff_emit_line_prefix(const struct doc *dc, struct doc_state *st,
 	doc_print(dc, st, str, len, DOC_PRINT_FORCE);
 }
 
+static int
+doc_diff_covers_token(const struct doc_state *st, const struct token *tk)
+{
+	return (tk->tk_flags & TOKEN_FLAG_DIFF) &&
+	    diff_get_chunk(st->st_diff_chunks, tk->tk_lno) != NULL;
+}
+
 /*
  * Returns non-zero if any document covers a token which is part of a diff
  * chunk.
  */
 static int
-doc_diff_covers(const struct doc *dc, struct doc_state *UNUSED(st), void *arg)
+doc_diff_covers(const struct doc *dc, struct doc_state *st, void *arg)
 {
 	struct doc_diff *dd = (struct doc_diff *)arg;
 
 	switch (dc->dc_type) {
 	case DOC_VERBATIM:
 		/* Must not share its last line with other token(s). */
-		if ((dc->dc_tk->tk_flags & TOKEN_FLAG_DIFF) == 0 &&
+		if (!doc_diff_covers_token(st, dc->dc_tk) &&
 		    dc->dc_tk->tk_lno >= dd->dd_threshold &&
 		    countlines(dc->dc_tk->tk_str, dc->dc_tk->tk_len) > 0) {
 			dd->dd_verbatim = dc->dc_tk;
@@ -1652,7 +1661,7 @@ doc_diff_covers(const struct doc *dc, struct doc_state *UNUSED(st), void *arg)
 				dd->dd_first_token = dc->dc_tk;
 				dd->dd_first = lno;
 			}
-			if (dc->dc_tk->tk_flags & TOKEN_FLAG_DIFF) {
+			if (doc_diff_covers_token(st, dc->dc_tk)) {
 				dd->dd_chunk = lno;
 				dd->dd_covers = dd->dd_branch ?
 				    DOC_DIFF_GROUP_IGNORE :
diff --git a/parser-priv.h b/parser-priv.h
index 75409ea..9955f20 100644
--- a/parser-priv.h
+++ b/parser-priv.h
@@ -49,6 +49,8 @@ struct parser {
 		struct token	*unmute;
 		struct token	*clang_format_off;
 	} pr_token;
+
+	struct diffchunk	*pr_diff;	/* VECTOR(struct diffchunk) */
 };
 
 struct parser_arena_scope_cookie {
diff --git a/parser.c b/parser.c
index 294cdea..8fb0f15 100644
--- a/parser.c
+++ b/parser.c
@@ -3,14 +3,19 @@
 #include "config.h"
 
 #include <ctype.h>
+#include <err.h>
+#include <limits.h>
 #include <string.h>
 
 #include "libks/arena-buffer.h"
+#include "libks/arena-vector.h"
 #include "libks/arena.h"
 #include "libks/compiler.h"
 #include "libks/list.h"
+#include "libks/vector.h"
 
 #include "clang.h"
+#include "diff.h"
 #include "doc.h"
 #include "lexer.h"
 #include "options.h"
@@ -42,6 +47,35 @@ countlines(const char *str, size_t len)
 	return nlines;
 }
 
+/*
+ * Lines covered by clang-format off are not subject to formatting, even if
+ * covered by a diff chunk.
+ */
+static void
+diff_exclude(struct parser *pr, unsigned int beg, unsigned int end)
+{
+	size_t nchunks = VECTOR_LENGTH(pr->pr_diff);
+	size_t i;
+
+	for (i = 0; i < nchunks; i++) {
+		struct diffchunk *du = &pr->pr_diff[i];
+		struct diffchunk tail = {
+			.du_beg	= end + 1,
+			.du_end	= du->du_end,
+		};
+
+		if (du->du_beg > end || du->du_end < beg)
+			continue;
+		du->du_end = beg - 1;
+		if (tail.du_end > end) {
+			du = VECTOR_ALLOC(pr->pr_diff);
+			if (du == NULL)
+				err(1, NULL);
+			*du = tail;
+		}
+	}
+}
+
 static void
 clang_format_verbatim(struct parser *pr, struct doc *dc, unsigned int end)
 {
@@ -57,6 +91,11 @@ clang_format_verbatim(struct parser *pr, struct doc *dc, unsigned int end)
 	nlines = countlines(off->tk_str, off->tk_len);
 	beg = off->tk_lno + nlines;
 	off_end = &off->tk_str[off->tk_len];
+	if (pr->pr_op->diffparse) {
+		diff_exclude(pr, off->tk_lno, end > 0 ? end - 1 : UINT_MAX);
+		token_rele(off);
+		return;
+	}
 	token_rele(off);
 
 	parser_trace(pr, "beg %u, end %u", beg, end);
@@ -107,7 +146,8 @@ clang_format_off(struct parser *pr, struct token *comment, struct doc *dc)
 
 	parser_trace(pr, "%s", lexer_serialize(pr->pr_lx, comment));
 
-	doc_alloc_impl(DOC_MUTE, dc, 1, __func__, __LINE__);
+	if (!pr->pr_op->diffparse)
+		doc_alloc_impl(DOC_MUTE, dc, 1, __func__, __LINE__);
 
 	/* Must account for more than one trailing hard line(s). */
 	if (pr->pr_token.clang_format_off != NULL)
@@ -149,6 +189,20 @@ parser_exec(struct parser *pr, const struct diffchunk *diff_chunks,
 	parser_arena_scope(&pr->pr_arena.doc_scope, &doc_scope, cookie);
 
 	dc = doc_root(&doc_scope);
+	if (pr->pr_op->diffparse) {
+		size_t nchunks = VECTOR_LENGTH(diff_chunks);
+		size_t i;
+
+		ARENA_VECTOR_INIT(&doc_scope, pr->pr_diff, nchunks);
+		for (i = 0; i < nchunks; i++) {
+			struct diffchunk *du;
+
+			du = VECTOR_ALLOC(pr->pr_diff);
+			if (du == NULL)
+				err(1, NULL);
+			*du = diff_chunks[i];
+		}
+	}
 
 	for (;;) {
 		struct doc *concat;
@@ -199,7 +253,7 @@ parser_exec(struct parser *pr, const struct diffchunk *diff_chunks,
 	    .dc			= dc,
 	    .lx			= pr->pr_op->diffparse ? pr->pr_lx : NULL,
 	    .scratch		= pr->pr_arena.scratch,
-	    .diff_chunks	= pr->pr_op->diffparse ? diff_chunks : NULL,
+	    .diff_chunks	= pr->pr_op->diffparse ? pr->pr_diff : NULL,
 	    .bf			= bf,
 	    .st			= pr->pr_st,
 	    .op			= pr->pr_op,
-- 
2.43.0


From 5d7d3c2d4da42214de7a2c1683ebed859214bdc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:36:37 +0000
Subject: [PATCH 29/36] fix: honor paths with spaces in diffs

A path in a diff ends at the tab before the optional timestamp, not at the
first space. Otherwise another file than the one named by the diff could be
formatted.
---
 diff.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/diff.c b/diff.c
index af508fd..c0755d1 100644
--- a/diff.c
+++ b/diff.c
@@ -49,7 +49,7 @@ diff_init(void)
 		const char	*p;
 	} patterns[] = {
 		{ &rechunk,	"^@@.+\\+([[:digit:]]+)(,([[:digit:]]+))?.+@@" },
-		{ &repath,	"^\\+\\+\\+[[:space:]]+([^[:space:]]+)" },
+		{ &repath,	"^\\+\\+\\+[[:space:]]+([^\t\r]*[^[:space:]])" },
 	};
 	size_t n = sizeof(patterns) / sizeof(patterns[0]);
 	size_t i;
-- 
2.43.0


From d8e13852fd17a5601a87ede21b7b84b236e2faa3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:36:51 +0000
Subject: [PATCH 30/36] fix: only consider the range of a diff chunk

The function heading following the range could be mistaken for the range
itself.
---
 diff.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/diff.c b/diff.c
index c0755d1..a4d5d4d 100644
--- a/diff.c
+++ b/diff.c
@@ -48,7 +48,7 @@ diff_init(void)
 		regex_t		*r;
 		const char	*p;
 	} patterns[] = {
-		{ &rechunk,	"^@@.+\\+([[:digit:]]+)(,([[:digit:]]+))?.+@@" },
+		{ &rechunk,	"^@@[^+]+\\+([[:digit:]]+)(,([[:digit:]]+))?.+@@" },
 		{ &repath,	"^\\+\\+\\+[[:space:]]+([^\t\r]*[^[:space:]])" },
 	};
 	size_t n = sizeof(patterns) / sizeof(patterns[0]);
-- 
2.43.0


From 39f404885f7dac012219cc67bdce86caa71509b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:25:40 +0000
Subject: [PATCH 31/36] fix: do not lose code while recovering from more than
 one error

Stamped tokens associated with documents removed while recovering were kept.
Recovering from another error would then remove further documents, causing code
preceding the branch to be lost. Documents left behind by a branch were on the
other hand not accounted for, causing code to be repeated.
---
 clang.c | 34 +++++++++++++++++++++++++++-------
 1 file changed, 27 insertions(+), 7 deletions(-)

diff --git a/clang.c b/clang.c
index d5f2a74..e0848f3 100644
--- a/clang.c
+++ b/clang.c
@@ -95,6 +95,7 @@ static const char		*clang_token_serialize_prefix(
 static struct token	*clang_end_of_branch(struct lexer *, struct token *,
     void *);
 
+static void		 clang_stamp_token(struct clang *, struct token *);
 static struct token	*clang_last_stamped(struct clang *);
 static struct token	*clang_recover_find_branch(struct token *,
     struct token *, int);
@@ -254,17 +255,12 @@ clang_lexer_callbacks(struct clang *cl)
 void
 clang_stamp(struct clang *cl, struct lexer *lx)
 {
-	struct token **dst;
 	struct token *back;
 
 	if (!lexer_back(lx, &back))
 		return;
 	clang_trace(cl, "stamp %s", lexer_serialize(lx, back));
-	token_ref(back);
-	dst = VECTOR_ALLOC(cl->stamps);
-	if (dst == NULL)
-		err(1, NULL);
-	*dst = back;
+	clang_stamp_token(cl, back);
 }
 
 /*
@@ -297,6 +293,13 @@ clang_branch(struct clang *cl, struct lexer *lx, struct token **unmute)
 
 	clang_token_branch_unlink(cpp_src);
 
+	/*
+	 * The document covering the branch is kept. Take note of it as it must
+	 * be removed while recovering, but only if it is covered by the branch
+	 * being folded.
+	 */
+	clang_stamp_token(cl, src);
+
 	rm = src;
 	for (;;) {
 		struct token *nx;
@@ -375,8 +378,13 @@ clang_recover(struct clang *cl, struct lexer *lx, struct token **unmute)
 	 */
 	for (i = VECTOR_LENGTH(cl->stamps); i > 0; i--) {
 		stamp = cl->stamps[i - 1];
-		if (!token_is_dangling(stamp) && token_cmp(stamp, cpp_src) < 0)
+		if (token_cmp(stamp, cpp_src) < 0)
 			break;
+		/* Already removed token(s) can only be emitted once. */
+		if (token_is_dangling(stamp) && token_cmp(stamp, cpp_dst) > 0)
+			break;
+		VECTOR_POP(cl->stamps);
+		token_rele(stamp);
 		ndocs++;
 	}
 	clang_trace(cl, "removing %d document(s)", ndocs);
@@ -755,6 +763,18 @@ clang_end_of_branch(struct lexer *UNUSED(lx), struct token *tk,
 	return NULL;
 }
 
+static void
+clang_stamp_token(struct clang *cl, struct token *tk)
+{
+	struct token **dst;
+
+	token_ref(tk);
+	dst = VECTOR_ALLOC(cl->stamps);
+	if (dst == NULL)
+		err(1, NULL);
+	*dst = tk;
+}
+
 static struct token *
 clang_last_stamped(struct clang *cl)
 {
-- 
2.43.0


From 473803d3299d17ae2a7e81f6217e889a96591c17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:31:25 +0000
Subject: [PATCH 32/36] fix: refuse to format using the default style if
 searching for .clang-format fails

Running out of descriptors while searching parent directories was treated as no
style being present.
---
 fs.c | 24 ++++++++++++++++++------
 1 file changed, 18 insertions(+), 6 deletions(-)

diff --git a/fs.c b/fs.c
index c39360c..b70d76e 100644
--- a/fs.c
+++ b/fs.c
@@ -16,7 +16,8 @@
 /*
  * Search for the given filename starting at the current working directory and
  * traverse upwards. Returns a file descriptor to the file if found, -1 otherwise
- * with errno set to ENOENT unless the file is present but cannot be opened.
+ * with errno set to ENOENT unless the file is present but cannot be opened or
+ * searching failed.
  * The optional nlevels argument reflects the number of directories traversed
  * upwards.
  */
@@ -33,10 +34,15 @@ searchpath(const char *filename, int *nlevels)
 	int dirfd;
 
 	dirfd = open(".", flags | O_DIRECTORY);
-	if (dirfd == -1)
+	if (dirfd == -1) {
+		if (errno != EACCES)
+			error = errno;
 		goto out;
-	if (fstat(dirfd, &sb) == -1)
+	}
+	if (fstat(dirfd, &sb) == -1) {
+		error = errno;
 		goto out;
+	}
 	dev = sb.st_dev;
 	ino = sb.st_ino;
 	for (;;) {
@@ -49,13 +55,19 @@ searchpath(const char *filename, int *nlevels)
 		}
 
 		fd = openat(dirfd, "..", flags | O_DIRECTORY);
+		if (fd == -1) {
+			/* Parent directories are not necessarily readable. */
+			if (errno != EACCES)
+				error = errno;
+			break;
+		}
 		close(dirfd);
 		dirfd = fd;
 		fd = -1;
-		if (dirfd == -1)
-			break;
-		if (fstat(dirfd, &sb) == -1)
+		if (fstat(dirfd, &sb) == -1) {
+			error = errno;
 			break;
+		}
 		if (dev == sb.st_dev && ino == sb.st_ino)
 			break;
 		dev = sb.st_dev;
-- 
2.43.0


From ff6c6a2d59e83aa3868afed063dca6976b2f4680 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:22:46 +0000
Subject: [PATCH 33/36] fix: do not confuse lack of memory with a regular
 expression not matching

With -D, chunks were silently ignored and the exit status was zero. While
sorting includes, categories were silently ignored.
---
 diff.c  |  5 +++--
 style.c |  6 +++---
 util.c  | 20 ++++++++++++++++++++
 util.h  |  3 +++
 4 files changed, 29 insertions(+), 5 deletions(-)

diff --git a/diff.c b/diff.c
index a4d5d4d..1441944 100644
--- a/diff.c
+++ b/diff.c
@@ -22,6 +22,7 @@
 #include "options.h"
 #include "trace-types.h"
 #include "trace.h"
+#include "util.h"
 
 static void	diff_end(struct diffchunk *, unsigned int);
 static void	git_prefix_init(int);
@@ -204,7 +205,7 @@ matchpath(const char *str, const char **out, struct arena_scope *s)
 	const char *buf, *path;
 	size_t len, prefixlen;
 
-	if (regexec(&repath, str, 2, rm, 0))
+	if (!regex_match(&repath, str, rm, 2))
 		return 0;
 
 	buf = str + rm[1].rm_so;
@@ -244,7 +245,7 @@ matchchunk(const char *str, unsigned int *sl, unsigned int *el)
 	regmatch_t rm[4];
 	unsigned int lno;
 
-	if (regexec(&rechunk, str, 4, rm, 0))
+	if (!regex_match(&rechunk, str, rm, 4))
 		return 0;
 
 	lno = strtou(str + rm[1].rm_so);
diff --git a/style.c b/style.c
index 91c0b94..1c9501f 100644
--- a/style.c
+++ b/style.c
@@ -514,13 +514,11 @@ style_include_priority(const struct style *st, const char *include_path)
 	n = VECTOR_LENGTH(st->include_categories);
 	for (i = 0; i < n; i++) {
 		const struct include_category *ic = &st->include_categories[i];
-		int error;
 
 		/* Pattern absent or invalid. */
 		if (ic->pattern == NULL)
 			continue;
-		error = regexec(&ic->regex, include_path, 0, NULL, 0);
-		if (error == 0)
+		if (regex_match(&ic->regex, include_path, NULL, 0))
 			return ic->priority;
 	}
 
@@ -1307,6 +1305,8 @@ parse_Regex(struct style *st, struct lexer *lx, const struct style_option *so)
 	regfree(&ic->regex);
 	error = regcomp(&ic->regex, ic->pattern,
 	    REG_EXTENDED | REG_NOSUB | REG_ICASE);
+	if (error == REG_ESPACE)
+		errx(1, "regcomp: out of memory");
 	if (error) {
 		char errbuf[128] = {0};
 
diff --git a/util.c b/util.c
index 4ead640..0483338 100644
--- a/util.c
+++ b/util.c
@@ -3,6 +3,8 @@
 #include "config.h"
 
 #include <ctype.h>
+#include <err.h>
+#include <errno.h>
 #include <string.h>
 
 #include "libks/arena-buffer.h"
@@ -152,3 +154,21 @@ strnice_buffer(struct buffer *bf, const char *str, size_t len)
 			buffer_printf(bf, "\\x%02x", (unsigned char)c);
 	}
 }
+
+/*
+ * Returns non-zero if the given string matches. Running out of memory must not
+ * be confused with absence of a match, not all implementations of regexec(3)
+ * make a distinction.
+ */
+int
+regex_match(const regex_t *re, const char *str, regmatch_t *matches,
+    size_t nmatches)
+{
+	int error;
+
+	errno = 0;
+	error = regexec(re, str, nmatches, matches, 0);
+	if (error == REG_ESPACE || (error != 0 && errno == ENOMEM))
+		errx(1, "regexec: out of memory");
+	return error == 0;
+}
diff --git a/util.h b/util.h
index 1726c10..33f1a00 100644
--- a/util.h
+++ b/util.h
@@ -1,3 +1,4 @@
+#include <regex.h>
 #include <stddef.h>	/* size_t */
 
 struct arena_scope;
@@ -13,3 +14,5 @@ const char	*strnice(const char *, size_t, struct arena_scope *);
 void		 strnice_buffer(struct buffer *, const char *, size_t);
 
 size_t	strindent_buffer(struct buffer *, size_t, int, size_t);
+
+int	regex_match(const regex_t *, const char *, regmatch_t *, size_t);
-- 
2.43.0


From d15b16936d382269ccdea5a12ed6ace22bec9e0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:01:52 +0000
Subject: [PATCH 34/36] fix: do not repeat or lose declarations moved while
 formatting a diff

With -D -s, declarations were moved into or out of lines covered by the diff.
---
 lexer.c               | 32 ++++++++++++++++++++++-----
 lexer.h               |  2 ++
 simple-decl-forward.c | 17 +++++++++++++--
 simple-decl.c         | 51 +++++++++++++++++++++++++++++++++++++++++++
 4 files changed, 95 insertions(+), 7 deletions(-)

diff --git a/lexer.c b/lexer.c
index 2a4b235..59cfc94 100644
--- a/lexer.c
+++ b/lexer.c
@@ -398,15 +398,24 @@ lexer_get_line_prefix(const struct lexer *lx, const struct token *tk,
     const char **str, size_t *len)
 {
 	const char *buf = lx->lx_input.ptr;
-	size_t bo, i;
+	unsigned int lno = tk->tk_lno;
+	size_t bo, end, eo, i;
 
-	if (tk->tk_lno == 0 || tk->tk_lno > VECTOR_LENGTH(lx->lx_lines))
+	if (lno == 0 || lno > VECTOR_LENGTH(lx->lx_lines))
 		return 0;
-	bo = lx->lx_lines[tk->tk_lno - 1];
-	if (tk->tk_off <= bo || tk->tk_off > lx->lx_input.len)
+	bo = lx->lx_lines[lno - 1];
+	end = lno < VECTOR_LENGTH(lx->lx_lines) ?
+	    lx->lx_lines[lno] : lx->lx_input.len;
+	/* Tokens could have been moved, from this line or any other. */
+	eo = end;
+	for (; tk != NULL && tk->tk_lno == lno; tk = token_next(tk)) {
+		if (tk->tk_off >= bo && tk->tk_off < eo)
+			eo = tk->tk_off;
+	}
+	if (eo == end)
 		return 0;
 	*str = &buf[bo];
-	*len = tk->tk_off - bo;
+	*len = eo - bo;
 	for (i = 0; i < *len; i++) {
 		if ((*str)[i] != ' ' && (*str)[i] != '\t')
 			return 1;
@@ -414,6 +423,19 @@ lexer_get_line_prefix(const struct lexer *lx, const struct token *tk,
 	return 0;
 }
 
+/*
+ * Returns non-zero if both tokens are covered by the same diff chunk.
+ */
+int
+lexer_is_same_diffchunk(const struct lexer *lx, const struct token *a,
+    const struct token *b)
+{
+	const struct diffchunk *du;
+
+	du = lexer_get_diffchunk(lx, a->tk_lno);
+	return du != NULL && du == lexer_get_diffchunk(lx, b->tk_lno);
+}
+
 void
 lexer_seek(struct lexer *lx, struct token *tk)
 {
diff --git a/lexer.h b/lexer.h
index 70ca186..f28c693 100644
--- a/lexer.h
+++ b/lexer.h
@@ -72,6 +72,8 @@ int		lexer_get_lines(const struct lexer *, unsigned int,
     unsigned int, const char **, size_t *);
 int		lexer_get_line_prefix(const struct lexer *,
     const struct token *, const char **, size_t *);
+int		lexer_is_same_diffchunk(const struct lexer *,
+    const struct token *, const struct token *);
 
 void	lexer_seek(struct lexer *, struct token *);
 int	lexer_seek_after(struct lexer *, struct token *);
diff --git a/simple-decl-forward.c b/simple-decl-forward.c
index af5b73c..0a857bc 100644
--- a/simple-decl-forward.c
+++ b/simple-decl-forward.c
@@ -163,6 +163,10 @@ is_covered_by_diff(struct token *beg, struct token *end)
 {
 	struct token *tk = beg;
 
+	/* Must not leave other token(s) on the same line behind. */
+	if (token_prev(beg) != NULL && token_cmp(token_prev(beg), beg) == 0)
+		return 0;
+
 	for (;;) {
 		if ((tk->tk_flags & TOKEN_FLAG_DIFF) == 0)
 			return 0;
@@ -183,8 +187,17 @@ simple_decl_forward(struct simple_decl_forward *sd, struct token *beg,
 		simple_decl_forward_leave(sd);
 		return;
 	}
-	if (sd->op->diffparse && !is_covered_by_diff(beg, semi))
-		return;
+	if (sd->op->diffparse) {
+		if (!is_covered_by_diff(beg, semi)) {
+			simple_decl_forward_leave(sd);
+			return;
+		}
+		/* Must not be moved past lines not covered by the diff. */
+		df = VECTOR_FIRST(sd->decls);
+		if (df != NULL &&
+		    !lexer_is_same_diffchunk(sd->lx, df->beg, beg))
+			simple_decl_forward_leave(sd);
+	}
 
 	df = VECTOR_ALLOC(sd->decls);
 	if (df == NULL)
diff --git a/simple-decl.c b/simple-decl.c
index dd01902..e3b97ae 100644
--- a/simple-decl.c
+++ b/simple-decl.c
@@ -14,6 +14,7 @@
 
 #include "clang.h"
 #include "lexer.h"
+#include "options.h"
 #include "token.h"
 #include "trace-types.h"
 #include "trace.h"
@@ -98,6 +99,13 @@ struct simple_decl {
 
 	struct decl_var		 dv;
 
+	struct {
+		/* First token of the first type declaration. */
+		struct token	*first;
+		/* Not everything is covered by the same diff chunk. */
+		int		 ignore;
+	} diff;
+
 	struct lexer		*lx;
 	const struct options	*op;
 };
@@ -113,6 +121,8 @@ static struct decl_var	*simple_decl_var_init(struct simple_decl *);
 static struct decl_var	*simple_decl_var_end(struct simple_decl *,
     struct token *);
 
+static void	simple_decl_diff(struct simple_decl *, struct token *);
+
 static void	associate_semi(struct decl *, struct decl_type *,
     struct token *);
 static int	classify(const struct token_range *, unsigned int *);
@@ -138,8 +148,17 @@ void
 simple_decl_leave(struct simple_decl *sd)
 {
 	struct lexer *lx = sd->lx;
+	struct token *before = NULL;
 	struct token *tk, *tmp;
 	size_t i;
+	unsigned int lno = 0;
+
+	if (sd->diff.ignore)
+		return;
+	if (sd->diff.first != NULL) {
+		before = token_prev(sd->diff.first);
+		lno = sd->diff.first->tk_lno;
+	}
 
 	for (i = 0; i < VECTOR_LENGTH(sd->types); i++) {
 		struct decl_type *dt = &sd->types[i];
@@ -174,6 +193,18 @@ simple_decl_leave(struct simple_decl *sd)
 		TOKEN_RANGE_FOREACH(tk, &dc->tr, tmp)
 			lexer_remove(lx, tk);
 	}
+
+	/*
+	 * While formatting a diff, nothing before what is now the first
+	 * declaration must be considered not covered.
+	 */
+	if (before != NULL) {
+		for (tk = token_next(before); tk != NULL; tk = token_next(tk)) {
+			tk->tk_lno = lno;
+			if (tk->tk_type == TOKEN_SEMI)
+				break;
+		}
+	}
 }
 
 void
@@ -248,6 +279,14 @@ simple_decl_type(struct simple_decl *sd, struct token *beg, struct token *end)
 	if (!is_type_valid(beg, end))
 		return;
 
+	if (sd->op->diffparse) {
+		simple_decl_diff(sd, beg);
+		/* Must not leave other token(s) on the same line behind. */
+		if (token_prev(beg) != NULL &&
+		    token_cmp(token_prev(beg), beg) == 0)
+			sd->diff.ignore = 1;
+	}
+
 	type = token_range_str(&tr, sd->eternal_scope);
 	sd->dt = simple_decl_type_create(sd, type, &tr);
 
@@ -273,6 +312,9 @@ simple_decl_semi(struct simple_decl *sd, struct token *semi)
 	if (decl_var_is_empty(&sd->dv))
 		return;
 
+	if (sd->op->diffparse)
+		simple_decl_diff(sd, semi);
+
 	simple_decl_var_end(sd, semi);
 
 	/*
@@ -520,6 +562,15 @@ simple_decl_var_end(struct simple_decl *sd, struct token *end)
 	return dst;
 }
 
+static void
+simple_decl_diff(struct simple_decl *sd, struct token *tk)
+{
+	if (sd->diff.first == NULL)
+		sd->diff.first = tk;
+	if (!lexer_is_same_diffchunk(sd->lx, sd->diff.first, tk))
+		sd->diff.ignore = 1;
+}
+
 static void
 associate_semi(struct decl *dc, struct decl_type *dt, struct token *semi)
 {
-- 
2.43.0


From 0c547b8453f1277f34d32be1c080e59cb58721e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:01:52 +0000
Subject: [PATCH 35/36] fix: do not repeat includes sorted while formatting a
 diff

---
 cpp-include.c | 25 ++++++++++++++++++++++++-
 1 file changed, 24 insertions(+), 1 deletion(-)

diff --git a/cpp-include.c b/cpp-include.c
index e680b9f..c9b49ab 100644
--- a/cpp-include.c
+++ b/cpp-include.c
@@ -48,6 +48,8 @@ static struct token	*add_line(struct cpp_include *, struct lexer *,
 
 static const char	*findpath(const char *, size_t, struct arena_scope *);
 
+static int	is_continued(const struct token *);
+
 static void	token_trim_verbatim_line(struct token *);
 
 struct cpp_include *
@@ -138,7 +140,8 @@ cpp_include_add(struct cpp_include *ci, struct lexer *lx, struct token *tk)
 		struct include *include;
 
 		if (ci->op->diffparse &&
-		    (tk->tk_flags & TOKEN_FLAG_DIFF) == 0)
+		    ((tk->tk_flags & TOKEN_FLAG_DIFF) == 0 ||
+		     is_continued(tk)))
 			ci->ignore = 1;
 
 		if (VECTOR_EMPTY(ci->includes))
@@ -222,6 +225,8 @@ cpp_include_exec(struct cpp_include *ci, struct lexer *lx)
 	MAP_ITERATOR(ci->groups) it = {0};
 	struct token *after = ci->after;
 	const char *path = lexer_get_path(lx);
+	unsigned int *lnos;
+	size_t nmoved = 0;
 	size_t i, nincludes;
 	unsigned int nbrackets = 0;
 	unsigned int nquotes = 0;
@@ -236,12 +241,14 @@ cpp_include_exec(struct cpp_include *ci, struct lexer *lx)
 
 	arena_scope(ci->scratch, s);
 
+	lnos = arena_malloc(&s, nincludes * sizeof(*lnos));
 	for (i = 0; i < nincludes; i++) {
 		struct include_priority priority = {0};
 		struct include *include = &ci->includes[i];
 		const struct token *tk = include->tk;
 		const char *include_path;
 
+		lnos[i] = tk->tk_lno;
 		include_path = findpath(tk->tk_str, tk->tk_len, &s);
 		if (include_path == NULL)
 			return;
@@ -299,6 +306,12 @@ cpp_include_exec(struct cpp_include *ci, struct lexer *lx)
 				token_list_prepend(ci->prefixes, include->tk);
 			}
 			after = include->tk;
+			/*
+			 * Line numbers must still be ascending as they tell
+			 * what has been emitted while formatting a diff.
+			 */
+			if (ci->op->diffparse)
+				include->tk->tk_lno = lnos[nmoved++];
 		}
 		if (doline)
 			after = add_line(ci, lx, after);
@@ -358,6 +371,16 @@ findpath(const char *str, size_t len, struct arena_scope *s)
 	return arena_strndup(s, so, (size_t)(eo - so) + 1);
 }
 
+static int
+is_continued(const struct token *tk)
+{
+	const char *str = tk->tk_str;
+	const char *nl;
+
+	nl = memchr(str, '\n', tk->tk_len);
+	return nl != NULL && nl > str && nl[-1] == '\\';
+}
+
 static void
 token_trim_verbatim_line(struct token *tk)
 {
-- 
2.43.0


From ed2cefb1bc32538ea994ca1825df1607d256379c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:12:23 +0000
Subject: [PATCH 36/36] fix: preserve the order of repeated forward
 declarations

How qsort(3) orders equal elements is unspecified and depends on the C
library and, in case of glibc, on the memory available. With -s, repeated
forward declarations followed by different comments could therefore end
up in any order.
---
 simple-decl-forward.c | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/simple-decl-forward.c b/simple-decl-forward.c
index 0a857bc..79ee9a8 100644
--- a/simple-decl-forward.c
+++ b/simple-decl-forward.c
@@ -42,7 +42,15 @@ simple_decl_forward_enter(struct lexer *lx, struct arena_scope *eternal_scope,
 static int
 decl_forward_cmp(const struct decl_forward *a, const struct decl_forward *b)
 {
-	return token_strcmp(a->ident, b->ident);
+	int cmp;
+
+	cmp = token_strcmp(a->ident, b->ident);
+	if (cmp != 0)
+		return cmp;
+	/* Preserve the order of repeated declarations, not given by qsort(3). */
+	if (a->ident->tk_off < b->ident->tk_off)
+		return -1;
+	return a->ident->tk_off > b->ident->tk_off;
 }
 
 static void
-- 
2.43.0


/*
 * AlignAfterOpenBracket: Align
 * AlwaysBreakAfterReturnType: None
 */

static CURL *setup_curl_easy(download_t *dl,
			     const char *url,
			     job_t *job)
{
}

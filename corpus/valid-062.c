/*
 * Foreach preprocessor directives.
 */

int
main(void)
{
	drm_for_each_connector_iter(connector, &conn_iter) {
	}
}

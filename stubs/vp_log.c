/* Logging has no effect on the properties. */
#include "vp.h"
#include "mcp_log.h"
void mcp_log_log(mcp_log_level_t level, const char *file, int line, const char *format, ...) {
    (void)level; (void)file; (void)line; (void)format;
}
void mcp_log_structured(mcp_log_level_t level, const char *component, const char *event, const char *format, ...) {
    (void)level; (void)component; (void)event; (void)format;
}
int mcp_log_init(const char *p, mcp_log_level_t l) { (void)p; (void)l; return 0; }
void mcp_log_close(void) {}
void mcp_log_set_level(mcp_log_level_t l) { (void)l; }
mcp_log_level_t mcp_log_get_level(void) { return MCP_LOG_LEVEL_FATAL; }
void mcp_log_set_quiet(bool q) { (void)q; }

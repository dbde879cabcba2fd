/* Fixed-capacity stand-in for the growable string buffer (decided under its
 * own property), so that response assembly keeps a concrete memory layout. */
#include "vp.h"
#include "mcp_string_utils.h"
#define CAP 96
int dyn_buf_init(dyn_buf_t *db, size_t n) {
    (void)n;
    if (!db) return -1;
    db->buffer = malloc(CAP);
    if (!db->buffer) { db->capacity = 0; return -1; }
    db->buffer[0] = 0; db->length = 0; db->capacity = CAP;
    return 0;
}
int dyn_buf_ensure_capacity(dyn_buf_t *db, size_t n) { (void)n; return db ? 0 : -1; }
int dyn_buf_append_char(dyn_buf_t *db, char c) {
    VP_ASSUME(db->length + 1 < CAP);
    db->buffer[db->length++] = c;
    db->buffer[db->length] = 0;
    return 0;
}
int dyn_buf_append(dyn_buf_t *db, const char *s) {
    if (!db || !s) return -1;
    for (; *s; s++) dyn_buf_append_char(db, *s);
    return 0;
}
char *dyn_buf_finalize(dyn_buf_t *db) {
    if (!db || !db->buffer) return NULL;
    char *r = db->buffer;
    db->buffer = NULL; db->length = db->capacity = 0;
    return r;
}
void dyn_buf_free(dyn_buf_t *db) {
    if (!db || !db->buffer) return;
    free(db->buffer);
    db->buffer = NULL; db->length = db->capacity = 0;
}

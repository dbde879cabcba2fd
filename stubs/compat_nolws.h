/* Copy of /opt/vp/compat/supamcp_linux.h without libwebsockets, for sources that do not use it (parsing that header takes goto-cc 3 s). */
/*
 * Forced into every C file of /repo by build.sh (-include). At this commit the
 * project only compiles with MSVC: what is here lets gcc on Linux take the same
 * files unchanged. It holds declarations and includes only, no code.
 */
#ifndef SUPAMCP_LINUX_COMPAT_H
#define SUPAMCP_LINUX_COMPAT_H

/* System headers that some files use without including them. */
#include <errno.h>
#include <limits.h>
#include <netdb.h>
#include <netinet/in.h>
#include <netinet/tcp.h>
#include <pthread.h>
#include <stdbool.h>
#include <stddef.h>
#include <stdint.h>
#include <sys/socket.h>
#include <sys/stat.h>
#include <time.h>
#include <unistd.h>

/* libwebsockets as apt built it: the copy in /repo/include is configured for
 * Windows, and its structures do not have the layout of the Linux library. */

/* The library in apt is built without its MQTT client role. These are the
 * functions of it that the MQTT client transport calls: weak, so that what
 * contains that transport still links. They are null at run time. */

/* src/common/mcp_socket_utils.c compares with it outside #ifdef _WIN32. Same
 * spelling as in include/mcp_connection_pool.h. */
#ifndef INVALID_SOCKET
    #define INVALID_SOCKET (-1)
#endif

/* "__thread static" is an error in gcc, "_Thread_local static" is not. */
#define __thread _Thread_local

/* Two public headers declare mcp_transport_sthttp_client_create with different
 * parameters. The only definition matches mcp_sthttp_client_transport.h, so the
 * stale declaration in mcp_sthttp_transport.h gets another name. */
#define mcp_transport_sthttp_client_create mcp_transport_sthttp_client_create_stale_declaration
#include "mcp_sthttp_transport.h"
#undef mcp_transport_sthttp_client_create

#endif

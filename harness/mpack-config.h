/* mpack-config.h - the configuration under which the harnesses build MPack.
 * Everything not fixed here comes from -D options on the command line. */
#ifndef VF_MPACK_CONFIG_H
#define VF_MPACK_CONFIG_H 1
#include <stddef.h>
#include <stdio.h>
#ifdef __cplusplus
extern "C" {
#endif
void* vf_malloc(size_t n);
void* vf_realloc(void* p, size_t n);
void vf_free(void* p);
#ifdef __cplusplus
}
#endif
#ifndef VF_NO_MALLOC
#define MPACK_MALLOC vf_malloc
#define MPACK_FREE vf_free
#ifndef VF_NO_REALLOC
#define MPACK_REALLOC vf_realloc
#endif
#endif
#ifndef MPACK_EXTENSIONS
#define MPACK_EXTENSIONS 1
#endif
#ifndef MPACK_COMPATIBILITY
#define MPACK_COMPATIBILITY 1
#endif
#if defined(VF_DEBUG)
#define MPACK_DEBUG 1
#define MPACK_CUSTOM_ASSERT 1
#define MPACK_CUSTOM_BREAK 1
#else
#ifndef MPACK_DEBUG
#define MPACK_DEBUG 0
#endif
#endif
#endif

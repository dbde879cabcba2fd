/* file operations go to a small file system in memory */
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <unistd.h>
#include <dirent.h>
#include <sys/stat.h>
FILE *vf_open(const char *path, const char *mode);
int vf_close(FILE *f);
size_t vf_read(void *p, size_t size, size_t n, FILE *f);
size_t vf_write(const void *p, size_t size, size_t n, FILE *f);
int vf_unlink(const char *path);
int vf_access(const char *path, int m);
int vf_rename(const char *a, const char *b);
int vf_mkdir(const char *path, unsigned m);
DIR *vf_opendir(const char *path);
struct dirent *vf_readdir(DIR *d);
int vf_closedir(DIR *d);
int vf_flush(FILE *f);
int vf_fileno(FILE *f);
int vf_fsync(int fd);
size_t vf_strlen(const char *s);
#define fopen vf_open
#define fclose vf_close
#define fread vf_read
#define fwrite vf_write
#define fflush vf_flush
#define fileno vf_fileno
#define fsync vf_fsync
#define unlink vf_unlink
#define remove vf_unlink
#define access vf_access
#define rename vf_rename
#define mkdir vf_mkdir
#define opendir vf_opendir
#define readdir vf_readdir
#define closedir vf_closedir
#define strlen vf_strlen

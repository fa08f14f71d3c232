#ifndef KASYNC_CONFIG_INCLUDED_H
#define KASYNC_CONFIG_INCLUDED_H
#define KSOCKET_SSL
/* #undef ENABLE_KSSL_BIO */
#define LINUX
/* #undef LINUX_IOURING */
#define HAVE_ACCEPT4
/* #undef KASYNC_TEST */
#define HAVE_MEMALIGN
#define HAVE_SETMNTENT
#define HAVE_WRITEV
#define HAVE_READV
/* #undef DISABLE_KFIBER */
/* #undef FREEBSD */
/* #undef DARWIN */
#ifndef NDEBUG
/* #undef MALLOCDEBUG */
#endif
/* #undef ENABLE_LIBUCONTEXT */
#define ENABLE_FCONTEXT
#ifdef LINUX
#undef _GNU_SOURCE
#define _GNU_SOURCE
#endif
#endif

/*  The headers of a kernel which has no fanotify to our liking. */
#define LINUX_VERSION_CODE ((5 << 16) + (8 << 8) + 0)
#define KERNEL_VERSION(a, b, c) (((a) << 16) + ((b) << 8) + ((c) > 255 ? 255 : (c)))
#define LINUX_VERSION_MAJOR 5
#define LINUX_VERSION_PATCHLEVEL 8
#define LINUX_VERSION_SUBLEVEL 0

/* configuration header of the verification build (same values configure generates on Linux) */
#ifndef __AXL_CONFIG_H__
#define __AXL_CONFIG_H__
#define INT_TO_PTR(integer)   ((axlPointer) (long) ((int)integer))
#define PTR_TO_INT(ptr) ((int) (long) (ptr))
#define AXL_OS_UNIX (1)
#define AXL_HAVE_VASPRINTF (1)
#endif

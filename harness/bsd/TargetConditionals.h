#ifndef VERIF_TARGETCONDITIONALS_H
#define VERIF_TARGETCONDITIONALS_H
#define TARGET_OS_MAC 1
#ifdef VERIF_AS_IOS
#define TARGET_OS_IPHONE 1
#define TARGET_OS_IOS 1
#define TARGET_OS_OSX 0
#else
#define TARGET_OS_IPHONE 0
#define TARGET_OS_IOS 0
#define TARGET_OS_OSX 1
#endif
#define TARGET_OS_SIMULATOR 0
#define TARGET_IPHONE_SIMULATOR 0
#endif

/* stands in for the header the project's Makefile generates from version.mk */
#ifndef AP_VERSION
#define AP_VERSION_MAJOR 0
#define AP_VERSION_MINOR 9
#define AP_VERSION_MICRO 15
#define AP_VERSION       "0.9.15"
#endif

// static build of the library for the monitored drivers
#pragma once
#define E57_DLL
#define E57FORMAT_NO_EXPORT
#define E57_DEPRECATED __attribute__( ( __deprecated__ ) )
